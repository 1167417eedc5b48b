/*VP {
 "srcs": ["cacheht.c", "array.c"],
 "models": ["logs_stub.c"],
 "rename": {"time@cacheht.c": "vp_time", "free@array.c": "vp_free", "free@cacheht.c": "vp_free", "free@utils.c": "vp_free"},
 "sed": [["cacheht.c", "(#define\\s+USED_GRADIENT\\s+)\\S+", "\\1GRADIENT"]],
 "unwind": "NODES+2",
 "unwindset": {"CacheHT_Init.*": 28, "vp_harness.*": 16},
 "bounds": "histories of the given skeleton (A: take a node of any of three sizes and insert it under any of three keys, R: remove any node, digit: remove that one) at any times, at most NODES nodes, room for ROOM of them; the threshold of reordering the free list scaled to GRADIENT",
 "stubs": ["the hash is any function of the key (a fixed one of three keys)"],
 "variants": {
  "AARA": {"defs": ["OPS=\"AARA\"", "NODES=2", "ROOM=2", "GRADIENT=1"]},
  "AAARRA": {"defs": ["OPS=\"AAARRA\"", "NODES=3", "ROOM=3", "GRADIENT=1"]},
  "AAAA102AA": {"defs": ["OPS=\"AAAA102AA\"", "NODES=4", "ROOM=4", "GRADIENT=1"]},
  "AAAA210AA": {"defs": ["OPS=\"AAAA210AA\"", "NODES=4", "ROOM=4", "GRADIENT=1"]},
  "AAAA012AA": {"defs": ["OPS=\"AAAA012AA\"", "NODES=4", "ROOM=4", "GRADIENT=1"]},
  "AA0A0A0A": {"defs": ["OPS=\"AA0A0A0A\"", "NODES=3", "ROOM=3", "GRADIENT=1"]},
  "AAA1A0A": {"defs": ["OPS=\"AAA1A0A\"", "NODES=3", "ROOM=3", "GRADIENT=5"]},
  "AAA0AAA": {"defs": ["OPS=\"AAA0AAA\"", "NODES=4", "ROOM=3", "GRADIENT=5"]},
  "AAARRAARRA": {"defs": ["OPS=\"AAARRAARRA\"", "NODES=3", "ROOM=3", "GRADIENT=1"], "tiers": ["thorough"]},
  "AAAA102AA02A": {"defs": ["OPS=\"AAAA102AA02A\"", "NODES=4", "ROOM=4", "GRADIENT=1"], "tiers": ["thorough"]},
  "AAAAARRRRA": {"defs": ["OPS=\"AAAAARRRRA\"", "NODES=5", "ROOM=5", "GRADIENT=1"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include <time.h>
#include "cacheht.h"
#define SIZE 102400
#define AREA (40 * (NODES + 1) + 32)
static char Mem[AREA] __attribute__((aligned(8)));
static time_t Clock = 100;
time_t vp_time(time_t *t) { return Clock; }
void vp_free(void *p) { vp_assert(0, "memory that was not allocated is not freed"); }
static const uint32_t Hash[3] = {3, 4, 3 + 7}; /* two of them share a slot */
uint32_t BKDRHash(const char *s, uint32_t u) { vp_assert(s[0] >= 'a' && s[0] <= 'c' && s[1] == 0 && u == 0, "the key is hashed"); return Hash[s[0] - 'a']; }

static CacheHT h;
static const char Ops[] = OPS;
/* reference: what every node index holds (0 free) and when it was inserted */
static struct { int used, size, key, stamp, off, ttl, left; time_t at; } Ref[NODES + 1];
static int Stamp, Made;

void vp_harness(void)
{
    int o, k, full = 0;
    static const char *Key[3] = {"a", "b", "c"};
    vp_assert(CacheHT_Init(&h, Mem + AREA - SIZE, SIZE) == 0, "set up");
    vp_model((char *)h.NodeChunk.Data - Mem >= NODES * (int)sizeof(Cht_Node), "model bound: area");
    for( o = 0; o < (int)sizeof(Ops) - 1; ++o )
    {
        Clock += vp_range(0, 100);
        if( Ops[o] == 'A' )
        {
            Cht_Node *n = NULL; BOOL fresh = 9; int r, any = 0, sz = 16 * vp_range(1, 3), key = vp_range(0, 2);
            char *limit = (char *)h.NodeChunk.Data - (ROOM - 1) * (int)sizeof(Cht_Node);
            for( k = 0; k < NODES; ++k ) if( k < Made && !Ref[k].used && Ref[k].size == sz ) any = 1;
            r = CacheHT_FindUnusedNode(&h, sz, &n, limit, &fresh);
            if( !any && Made >= ROOM ) { vp_assert(r < 0, "no node is made outside the memory"); full = 1; continue; }
            vp_assert(r >= 0 && r < NODES, "a node of the size is found or made");
            vp_assert(n == (Cht_Node *)((char *)h.NodeChunk.Data - r * (int)sizeof(Cht_Node)), "the node of the index");
            vp_assert((char *)n >= limit, "inside the memory");
            vp_assert(!Ref[r].used, "a node in use is never handed out again");
            vp_assert(n->Length == sz, "of the size");
            vp_assert(fresh == !any, "a free node of the size is used again");
            if( any ) vp_assert(r < Made && Ref[r].size == sz && n->Offset == Ref[r].off, "with its place in the memory");
            else { vp_assert(r == Made, "new nodes follow one another"); ++Made; n->Offset = 1000 + o; Ref[r].off = 1000 + o; }
            Ref[r].used = 1; Ref[r].size = sz; Ref[r].key = key; Ref[r].stamp = ++Stamp;
            Ref[r].ttl = n->TTL = vp_range(1, 1000); Ref[r].at = n->TimeAdded = Clock; Ref[r].left = n->UsedLength = vp_range(1, sz);
            vp_assert(CacheHT_InsertToSlot(&h, Key[key], r, n, NULL) == 0, "inserted");
        }
        else
        {
            int r = Ops[o] == 'R' ? vp_range(0, NODES - 1) : Ops[o] - '0';
            Cht_Node *n;
            vp_assume(Ref[r].used);
            n = Array_GetBySubscript(&h.NodeChunk, r);
            n->TTL = 0;
            vp_assert(CacheHT_RemoveFromSlot(&h, r, n) == 0, "removed");
            Ref[r].used = 0;
            if( r == Made - 1 ) --Made;
        }
    }
    vp_assert(h.NodeChunk.Used == Made, "the number of nodes");
    /* nodes in use are as they were */
    {
        int r = vp_range(0, NODES - 1);
        Cht_Node *n = Array_GetBySubscript(&h.NodeChunk, r);
        vp_assert((n != NULL) == (r < Made), "nodes by index");
        if( n != NULL ) vp_assert(n->Length == Ref[r].size && n->Offset == Ref[r].off, "size and place are kept");
        if( Ref[r].used ) vp_assert(n->TTL == Ref[r].ttl && n->TimeAdded == Ref[r].at && n->UsedLength == Ref[r].left, "nodes in use are kept");
        else if( n != NULL ) vp_assert(n->TTL == 0, "free nodes are dead");
    }
    /* a lookup meets every node of the key, newest first, and nothing dead */
    {
        int key = vp_range(0, 2), met = 0, want = 0, last = Stamp + 1;
        Cht_Node *n = NULL;
        for( k = 0; k < NODES; ++k ) if( Ref[k].used && Ref[k].key == key ) ++want;
        for( o = 0; o <= NODES; ++o )
        {
            int r;
            n = CacheHT_Get(&h, Key[key], n, NULL);
            if( n == NULL ) break;
            r = ((char *)h.NodeChunk.Data - (char *)n) / (int)sizeof(Cht_Node);
            vp_assert(r >= 0 && r < NODES && Ref[r].used, "no lookup meets a removed node");
            vp_assert(Ref[r].stamp < last, "newest first, each once");
            last = Ref[r].stamp;
            if( Ref[r].key == key ) ++met;
        }
        vp_assert(n == NULL && met == want, "a lookup meets every node of its key");
        if( met > 1 ) vp_witness("several of a key");
    }
    if( full ) vp_witness("full");
    CacheHT_Free(&h);
}
