/*VP {
 "srcs": ["stablebuffer.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy@stablebuffer.c": "vp_memcpy", "memmove@stablebuffer.c": "vp_memmove", "malloc@stablebuffer.c": "blk", "free@stablebuffer.c": "unblk"},
 "unwind": "N+2",
 "unwindset": {"vp_.*": 10},
 "bounds": "N additions of 1 to 9 bytes each, aligned or not, any content",
 "stubs": ["Array by contract (C24_array)", "malloc hands out separate blocks (of one object); staying inside the requested size is asserted"],
 "variants": {
  "n3": {"defs": ["N=3"]},
  "n4": {"defs": ["N=4"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "stablebuffer.h"
#define BM 64
static uint8_t Arena[4 * BM] __attribute__((aligned(16)));
static size_t Sz[4];
static int Blocks;
void *blk(size_t n)
{
    vp_model(Blocks < N && n <= BM - 16, "model bound: blocks");
    Sz[Blocks] = n;
    return Arena + BM * Blocks++;
}
void unblk(void *p) { }
static StableBuffer_MetaInfo M[4];
int Array_Init(Array *a, int DataLength, int n, BOOL down, void *f) { a->Used = 0; a->Data = (char *)M; a->DataLength = DataLength; a->Allocated = 4; return 0; }
int Array_PushBack(Array *a, const void *d, void *b) { vp_model(a->Used < 4, "model bound: array"); M[a->Used] = *(const StableBuffer_MetaInfo *)d; return a->Used++; }
void *Array_GetBySubscript(const Array *a, int s) { return s >= 0 && s < a->Used ? &M[s] : NULL; }
void Array_Free(Array *a) { a->Used = 0; }

static uint8_t src[9];
static uint8_t *at[N], first[N], last[N];
static int len[N];
static int Inside(const uint8_t *p, int n)
{
    int o = (int)(p - Arena);
    return o >= 0 && o < BM * Blocks && (o & (BM - 1)) + n <= (int)Sz[o / BM];
}
void vp_harness(void)
{
    StableBuffer s;
    StableBufferIterator i;
    int n, k, mode = vp_range(0, 2);
    vp_assume(StableBuffer_Init(&s) == 0);
    k = vp_range(0, N - 1);
    for( n = 0; n < N; ++n )
    {
        int al = mode == 0 ? 0 : mode == 1 ? 1 : vp_bool();
        len[n] = vp_range(1, 9);
        vp_bytes(src, 9);
        first[n] = src[0]; last[n] = src[len[n] - 1];
        at[n] = s.Add(&s, src, len[n], al);
        vp_assert(at[n] != NULL && Inside(at[n], len[n]), "room is given, inside what was allocated");
        if( mode == 1 ) vp_assert(((uintptr_t)at[n] & (sizeof(void *) - 1)) == 0, "aligned rooms stay aligned");
    }
    for( n = 0; n < N; ++n )
        vp_assert(at[n][0] == first[n] && at[n][len[n] - 1] == last[n], "every room keeps its content, whatever was added later");
    for( n = 0; n < N; ++n )
        if( n == k ) { at[n][0] = ~at[n][0]; if( len[n] > 1 ) at[n][len[n] - 1] = ~at[n][len[n] - 1]; }
    for( n = 0; n < N; ++n )
        if( n != k ) vp_assert(at[n][0] == first[n] && at[n][len[n] - 1] == last[n], "rooms do not overlap");
    vp_assume(StableBufferIterator_Init(&i, &s) == 0);
    for( n = 0; n < N; ++n )
        if( n == k )
    {
        int hit = 0, b = 0;
        i.Reset(&i);
        for( ; b < N && i.NextBlock(&i) != NULL; ++b ) hit += i.IsInCurrentBlock(&i, at[n]);
        vp_assert(hit == 1, "every room is found in exactly one block");
    }
    vp_witness("end");
}
