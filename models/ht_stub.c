/* Array and SimpleHT as contracts for elements made of two words (the real ones are decided
 * under C24).  SimpleHT: everything in one bucket, newest first - the worst case a hash
 * allows, so callers must compare the key themselves. */
#include "vp.h"
#include "array.h"
#include "simpleht.h"
#ifndef HT_MAX
#define HT_MAX 4
#endif
typedef struct { void *w[2]; } Two;
typedef struct { Two d[HT_MAX]; } Pool;
static Pool P0, P1, P2, P3, P4, P5;
static int Pools;
static void *NewPool(void)
{
    switch( Pools++ ) { case 0: return &P0; case 1: return &P1; case 2: return &P2; case 3: return &P3; case 4: return &P4; default: return &P5; }
}
int Array_Init(Array *a, int DataLength, int n, BOOL down, void *f)
{ vp_model(DataLength <= (int)sizeof(Two) && !down, "model bound: element size"); a->Data = NewPool(); a->Used = 0; a->DataLength = DataLength; a->Allocated = n; return 0; }
int Array_PushBack(Array *a, const void *Data, void *b)
{
    vp_model(a->Used < HT_MAX, "model bound: elements");
    if( Data != NULL )
    {
        if( a->DataLength == sizeof(Two) ) ((Pool *)a->Data)->d[a->Used] = *(const Two *)Data;
        else ((Pool *)a->Data)->d[a->Used].w[0] = *(void *const *)Data;
    }
    return a->Used++;
}
void *Array_GetBySubscript(const Array *a, int s)
{ return s >= 0 && s < a->Used ? &((Pool *)a->Data)->d[s] : NULL; }
void Array_Free(Array *a) { a->Used = 0; a->Data = NULL; }

int SimpleHT_Init(SimpleHT *h, int DataLength, size_t m, uint32_t (*f)(const char *, uint32_t))
{ h->HashFunction = f; return Array_Init(&h->Nodes, DataLength, 0, FALSE, NULL); }
const char *SimpleHT_Add(SimpleHT *h, const char *k, int l, const char *Data, const uint32_t *v)
{ int s = Array_PushBack(&h->Nodes, Data, NULL); return Array_GetBySubscript(&h->Nodes, s); }
const char *SimpleHT_Find(SimpleHT *h, const char *k, int l, const uint32_t *v, const char *Start)
{
    if( Start == NULL ) return Array_GetBySubscript(&h->Nodes, h->Nodes.Used - 1);
    return Array_GetBySubscript(&h->Nodes, (int)((Two *)Start - ((Pool *)h->Nodes.Data)->d) - 1);
}
const char *SimpleHT_Enum(SimpleHT *h, int32_t *s)
{ const char *r = Array_GetBySubscript(&h->Nodes, *s); if( r ) ++*s; return r; }
void SimpleHT_Free(SimpleHT *h) { Array_Free(&h->Nodes); }
