/*VP {
 "srcs": ["mcontext.c", "bst.c", "iheader.c"],
 "models": ["logs_stub.c", "ht_stub.c"],
 "sed": [["iheader.h", "(char\\s+Domain)\\[[^\\]]*\\]", "\\1[4]"], ["iheader.h", "char\\s+Agent\\[[^\\]]*\\]", "char Agent[4]"]],
 "rename": {"time": "vp_time"},
 "unwind": 6,
 "unwindset": {"vp_.*": 4, "Bst_.*": "Q+1", "strcmp.*": 5},
 "bounds": "Q pending queries with arbitrary identifiers, names (up to 3 bytes), types and origins, equal ones included, then RESP arbitrary responses",
 "stubs": ["logging is empty", "the name and agent buffers of the header are scaled to 4 bytes, messages to their 12-byte header", "StableBuffer by contract (C24)", "HASH is any function of the name"],
 "variants": {
  "q3": {"defs": ["Q=3", "RESP=1"]},
  "q2": {"defs": ["Q=2", "RESP=2"]},
  "q3r2": {"defs": ["Q=3", "RESP=2"]}
  }
} VP*/
#include "vp.h"
#include "mcontext.h"

typedef struct { IHeader h; uint8_t msg[16]; } Item;
typedef struct { Bst_NodeHead n; Item i; } Room;
static Room R0, R1, R2, R3;
static int Rooms;
static void *SB_Add(StableBuffer *s, const void *Data, int Length, BOOL Align)
{
    vp_assert(Length <= (int)sizeof(Room), "room request fits one element");
    switch( Rooms++ ) { case 0: return &R0; case 1: return &R1; case 2: return &R2; default: return &R3; }
}
static void SB_Nop(StableBuffer *s) { }
int StableBuffer_Init(StableBuffer *s) { s->Add = SB_Add; s->Clear = SB_Nop; s->Free = SB_Nop; return 0; }
time_t vp_time(time_t *t) { return 1000; }

typedef struct { uint16_t id; char dom[4]; uint32_t hash; int type; } Key;
static Key K[Q + RESP];
static int Live[Q];
static Item In, Out;

static int SameDom(const Key *a, const Key *b)
{
    int k;
    for( k = 0; k < 4; ++k )
    {
        if( a->dom[k] != b->dom[k] ) return 0;
        if( a->dom[k] == 0 ) return 1;
    }
    return 1;
}
static int Same(const Key *a, const Key *b) { return a->id == b->id && a->type == b->type && SameDom(a, b); }
static void Fill(Item *i, const Key *k)
{
    i->h.Domain[0] = k->dom[0]; i->h.Domain[1] = k->dom[1]; i->h.Domain[2] = k->dom[2]; i->h.Domain[3] = 0;
    i->h.HashValue = k->hash; i->h.Type = k->type;
    i->msg[0] = k->id >> 8; i->msg[1] = k->id;
}

void vp_harness(void)
{
    ModuleContext c;
    int n, k, r;
    vp_assume(ModuleContext_Init(&c, sizeof(Item)) == 0);
    for( n = 0; n < Q + RESP; ++n )
    {
        K[n].id = vp_u16(); K[n].hash = vp_u32(); K[n].type = vp_u16();
        K[n].dom[0] = vp_u8(); K[n].dom[1] = vp_u8(); K[n].dom[2] = vp_u8();
        for( k = 0; k < n; ++k ) vp_assume(!SameDom(&K[n], &K[k]) || K[n].hash == K[k].hash);
    }
    for( n = 0; n < Q; ++n )
    {
        Fill(&In, &K[n]);
        In.h.SendBackSocket = 100 + n; In.h.EntityLength = 12 + n; In.h.EDNSEnabled = n & 1;
        In.h.Parent = (IHeader *)&K[n]; In.h.RequestTcp = n == 1; In.h.ReturnHeader = n == 2;
        In.h.BackAddress.family = n == 0 ? AF_INET : n == 1 ? AF_UNSPEC : AF_INET6;
        In.h.BackAddress.Addr.Addr4.sin_port = n + 7;
        vp_assert(c.Add(&c, (MsgContext *)&In) != NULL, "a query is taken in");
        Live[n] = 1;
    }
    for( r = 0; r < RESP; ++r )
    {
        int want = 0, hit = 0, at, e = vp_bool(), rc;
        const Key *q = &K[Q + r];
        Fill(&Out, q);
        Out.h.EntityLength = 44; Out.h.EDNSEnabled = e; Out.h.SendBackSocket = -1; Out.h.BackAddress.family = AF_UNSPEC; Out.h.Parent = NULL;
        for( k = 0; k < Q; ++k ) if( Live[k] && Same(&K[k], q) ) want = 1;
        rc = c.GenAnswerHeaderAndRemove(&c, (MsgContext *)&Out, (MsgContext *)&Out);
        vp_assert((rc == 0) == want, "a response is taken iff a query with its identifier, name and type is pending");
        if( rc == 0 )
        {
            at = (int)Out.h.SendBackSocket - 100;
            for( k = 0; k < Q; ++k )
                if( k == at )
                {
                    hit = Live[k] && Same(&K[k], q);
                    Live[k] = 0;
                    vp_assert(Out.h.Parent == (IHeader *)&K[k] && Out.h.RequestTcp == (k == 1) && Out.h.ReturnHeader == (k == 2)
                       && Out.h.BackAddress.Addr.Addr4.sin_port == k + 7 && Out.h.BackAddress.family == (k == 0 ? AF_INET : k == 1 ? AF_UNSPEC : AF_INET6)
                       && Out.h.Type == q->type && Out.h.Domain[0] == q->dom[0], "it goes to that query's origin, all of it");
                    vp_witness("delivered");
                }
            vp_assert(hit, "the query it is delivered for matches and was still pending");
            vp_assert(Out.h.EntityLength == 44 && !!Out.h.EDNSEnabled == e, "length and EDNS are those of the response");
            vp_assert(Out.msg[0] == (q->id >> 8) && Out.msg[1] == (q->id & 255), "the message itself is the response's");
        } else { vp_assert(Out.h.SendBackSocket == -1, "an unmatched response gets no origin"); vp_witness("dropped"); }
    }
    /* whatever is still pending can still be answered */
    {
        int w = vp_range(0, Q - 1);
        for( k = 0; k < Q; ++k )
            if( k == w )
            {
                Fill(&Out, &K[k]);
                if( Live[k] ) vp_assert(c.Find(&c, (MsgContext *)&Out) != NULL, "a query not answered stays pending");
            }
    }
}
