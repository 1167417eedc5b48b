/* Blocks for the real StableBuffer: malloc as separate regions of one object (so that the
 * position arithmetic of the iterators is meaningful to the solver), and its block list as a
 * contract.  Use with rename malloc/free@stablebuffer.c -> blk/unblk. */
#include "vp.h"
#include "stablebuffer.h"
#ifndef BM
#define BM 64
#endif
#ifndef BLOCKS
#define BLOCKS 4
#endif
uint8_t Arena[BLOCKS * BM + 16] __attribute__((aligned(16)));
size_t Sz[BLOCKS];
int Blocks;
void *blk(size_t n)
{
    vp_model(Blocks < BLOCKS && n <= BM, "model bound: blocks");
    Sz[Blocks] = n;
    return Arena + 16 + BM * Blocks++;
}
void unblk(void *p) { }
static StableBuffer_MetaInfo MI[BLOCKS];
int Array_Init(Array *a, int DataLength, int n, BOOL down, void *f) { a->Used = 0; a->Data = (char *)MI; a->DataLength = DataLength; a->Allocated = BLOCKS; return 0; }
int Array_PushBack(Array *a, const void *d, void *b) { vp_model(a->Used < BLOCKS, "model bound: array"); MI[a->Used] = *(const StableBuffer_MetaInfo *)d; return a->Used++; }
void *Array_GetBySubscript(const Array *a, int s) { return s >= 0 && s < a->Used ? &MI[s] : NULL; }
void Array_Free(Array *a) { a->Used = 0; }
