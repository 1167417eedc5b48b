/*VP {
 "srcs": ["mcontext.c", "bst.c", "iheader.c"],
 "models": ["logs_stub.c", "ht_stub.c"],
 "sed": [["iheader.h", "(char\\s+Domain)\\[[^\\]]*\\]", "\\1[4]"], ["iheader.h", "char\\s+Agent\\[[^\\]]*\\]", "char Agent[4]"]],
 "rename": {"time": "vp_time"},
 "unwind": 6,
 "unwindset": {"vp_.*": 4, "Bst_.*": "Q+1", "strcmp.*": 5},
 "bounds": "Q pending queries arriving at arbitrary non-decreasing times in any order of identifiers, SWEEPS sweeps at arbitrary later times",
 "stubs": ["logging is empty", "the name and agent buffers of the header are scaled to 4 bytes, messages to their 12-byte header", "StableBuffer and Array by contract (C24)", "the clock returns any non-decreasing time, constant during a sweep"],
 "variants": {
  "q3": {"defs": ["Q=3", "SWEEPS=1"]},
  "q2": {"defs": ["Q=2", "SWEEPS=2"]},
  "q4": {"defs": ["Q=4", "SWEEPS=1"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "mcontext.h"

typedef struct { IHeader h; uint8_t msg[16]; } Item;
typedef struct { Bst_NodeHead n; Item i; } Room;
static Room R0, R1, R2, R3;
static int Rooms;
static void *SB_Add(StableBuffer *s, const void *Data, int Length, BOOL Align)
{
    switch( Rooms++ ) { case 0: return &R0; case 1: return &R1; case 2: return &R2; default: return &R3; }
}
static void SB_Nop(StableBuffer *s) { }
int StableBuffer_Init(StableBuffer *s) { s->Add = SB_Add; s->Clear = SB_Nop; s->Free = SB_Nop; return 0; }
static time_t Now;
time_t vp_time(time_t *t) { return Now; }

static Item In;
static uint16_t Id[Q];
static time_t At[Q];
static int Live[Q], Told[Q], Calls, Other;
static void Swept(const MsgContext *m, int Number, void *Arg)
{
    int k = (int)((IHeader *)m)->SendBackSocket - 100;
    vp_assert(Arg == (void *)&In, "the caller's argument");
    ++Calls;
    vp_assert(Number == Calls, "numbered from one");
    if( k >= 0 && k < Q ) ++Told[k]; else ++Other;
}
void vp_harness(void)
{
    ModuleContext c;
    int n, s;
    vp_assume(ModuleContext_Init(&c, sizeof(Item)) == 0);
    Now = vp_range(0, 1000);
    for( n = 0; n < Q; ++n )
    {
        Now += vp_range(0, 5);
        Id[n] = vp_u16(); At[n] = Now;
        In.msg[0] = Id[n] >> 8; In.msg[1] = Id[n]; In.h.SendBackSocket = 100 + n;
        vp_assert(c.Add(&c, (MsgContext *)&In) != NULL, "a query is taken in");
        Live[n] = 1;
    }
    for( s = 0; s < SWEEPS; ++s )
    {
        Now += vp_range(0, 5);
        Calls = 0;
        for( n = 0; n < Q; ++n ) Told[n] = 0;
        c.Sweep(&c, Swept, &In);
        for( n = 0; n < Q; ++n )
        {
            int old = Live[n] && Now - At[n] > 2;
            vp_assert(Told[n] == old, "a query is reported as timed out once iff it has been pending for more than two seconds");
            if( old ) { Live[n] = 0; vp_witness("timed out"); }
        }
        vp_assert(Other == 0, "nothing else is reported");
    }
    {
        int w = vp_range(0, Q - 1), same = 0;
        for( n = 0; n < Q; ++n ) if( Live[n] && Id[n] == Id[w] ) same = 1;
        In.msg[0] = Id[w] >> 8; In.msg[1] = Id[w];
        vp_assert((c.Find(&c, (MsgContext *)&In) != NULL) == same, "timed out queries are gone, all others are still pending");
    }
    vp_witness("end");
}
