/*VP {
 "srcs": ["bst.c"],
 "models": ["logs_stub.c"],
 "unwind": 6,
 "unwindset": {"vp_.*": 8, "Bst_.*": 5},
 "bounds": "any history of VP_OPS operations (add any key / delete any live element / look up any key / enumerate) on an initially empty tree; elements of 8 bytes; keys over all 2^8 values",
 "stubs": ["logging is empty","StableBuffer replaced by its contract: every request returns fresh, stable, non-overlapping room (the real one is decided under C24)"],
 "variants": {
  "AAADAD": {"defs": ["VP_OPS=\"AAADAD\"", "VP_ENUM=0"]},
  "AAADAe": {"defs": ["VP_OPS=\"AAADA\"", "VP_ENUM=1"]},
  "AADADA": {"defs": ["VP_OPS=\"AADADA\"", "VP_ENUM=0"]},
  "AAAADs": {"defs": ["VP_OPS=\"AAAAD\"", "VP_ENUM=0"]},
  "AAAADD": {"defs": ["VP_OPS=\"AAAADD\"", "VP_ENUM=0"]},
  "AAAADe": {"defs": ["VP_OPS=\"AAAAD\"", "VP_ENUM=1"]}
  }
} VP*/
#include "vp.h"
#include "bst.h"

#define N 5   /* insertions at most */

typedef struct { int Key; int Tag; } El;
static int Cmp(const void *a, const void *b)
{
    int x = ((const El *)a)->Key, y = ((const El *)b)->Key;
    return x < y ? -1 : x > y;
}

/* rooms the buffer hands out: typed objects keep the encoding small */
typedef struct { Bst_NodeHead h; El e; } Room;
static Room R0, R1, R2, R3, R4, R5, R6, R7;
static int  RoomsUsed;
static void *SB_Add(StableBuffer *s, const void *Data, int Length, BOOL Align)
{
    vp_assert(Length <= (int)sizeof(Room), "room request fits one element");
    vp_assert(RoomsUsed < N, "at most one room per insertion");
    switch( RoomsUsed++ )
    {
    case 0: return &R0; case 1: return &R1; case 2: return &R2; case 3: return &R3;
    case 4: return &R4; case 5: return &R5; case 6: return &R6; default: return &R7;
    }
}
static void SB_Clear(StableBuffer *s) { RoomsUsed = 0; }
int StableBuffer_Init(StableBuffer *s)
{
    s->Add = SB_Add; s->Clear = SB_Clear; s->Free = SB_Clear;
    return 0;
}

static El   Ref[N];         /* mirror: live elements */
static const El *At[N];
static int  Live[N];
static int  Seen[N], SeenOther;

static int Visit(Bst *t, const void *Data, void *Arg)
{
    int k, hit = 0;
    for( k = 0; k < N; ++k )
        if( Live[k] && At[k] == Data ) { ++Seen[k]; hit = 1; }
    if( !hit ) ++SeenOther;
    return 0;
}

static void CheckEnum(Bst *t)
{
    int k;
    t->Enum(t, Visit, NULL);
    for( k = 0; k < N; ++k )
        vp_assert(Seen[k] == (Live[k] ? 1 : 0), "enumeration visits every live element exactly once");
    vp_assert(SeenOther == 0, "enumeration visits nothing else");
}

static void CheckSearch(Bst *t, int Key)
{
    int k, want = 0;
    El q = {Key, 0};
    const El *f;
    for( k = 0; k < N; ++k )
    {
        if( Live[k] )
        {
            vp_assert(At[k]->Key == Ref[k].Key && At[k]->Tag == Ref[k].Tag, "a live element keeps its address and content");
            if( Ref[k].Key == Key ) ++want;
        }
    }
    f = t->Search(t, &q, NULL);
    vp_assert((f != NULL) == (want > 0), "a key is found iff a live element has it");
    if( f != NULL )
    {
        int hit = 0;
        for( k = 0; k < N; ++k ) if( Live[k] && At[k] == f && Ref[k].Key == Key ) hit = 1;
        vp_assert(hit, "what a lookup returns is a live element with that key");
    }
}

void vp_harness(void)
{
    static const char Ops[] = VP_OPS;
    Bst t;
    int n, k, a = 0;
    vp_assume(Bst_Init(&t, sizeof(El), Cmp) == 0);
    for( n = 0; n < (int)sizeof(Ops) - 1; ++n )
    {
        if( Ops[n] == 'A' )
        {
            Ref[a].Key = (int8_t)vp_u8(); Ref[a].Tag = a + 1;
            At[a] = t.Add(&t, &Ref[a]);
            vp_assert(At[a] != NULL, "insertion succeeds");
            for( k = 0; k < a; ++k )
                vp_assert(!(Live[k] && At[k] == At[a]), "a new element never takes a live element's room");
            Live[a] = 1;
            ++a;
        } else {
            int w = vp_range(0, N - 1);
            vp_assume(Live[w]);
            for( k = 0; k < N; ++k )
                if( k == w ) { t.Delete(&t, At[k]); Live[k] = 0; }
        }
    }
    if( VP_ENUM ) CheckEnum(&t); else CheckSearch(&t, (int8_t)vp_u8());
    vp_witness("history finished");
    t.Free(&t);
}
