/* Contract of the cache's node table (cacheht.c, decided under C10): nodes are handed out
 * unused and of the size asked for, a lookup meets every node of the same key. */
#include "vp.h"
#include "cacheht.h"
#define NODES 4
static Cht_Node Node[NODES];
static int Used[NODES], Slot[NODES];
int FullAt;
int Taken(void) { int k, n = 0; for( k = 0; k < NODES; ++k ) n += Used[k]; return n; }
void *Array_GetBySubscript(const Array *a, int s) { return s >= 0 && s < a->Used ? &Node[s] : NULL; }
int CacheHT_Init(CacheHT *h, char *b, int n) { h->NodeChunk.Used = 0; h->Free2DList = -1; return 0; }
int CacheHT_ReInit(CacheHT *h, char *b, int n) { return 0; }
void CacheHT_Free(CacheHT *h) { }
int32_t CacheHT_FindUnusedNode(CacheHT *h, uint32_t Size, Cht_Node **Out, void *Boundary, BOOL *New)
{
    int k;
    if( Taken() >= FullAt ) return -1;
    for( k = 0; k < NODES; ++k )
        if( k < h->NodeChunk.Used && !Used[k] && Node[k].Length == Size )
        {
            Used[k] = 1; *New = FALSE; *Out = &Node[k]; Node[k].UsedLength = 0;
            return k;
        }
    vp_model(h->NodeChunk.Used < NODES, "model bound: nodes");
    k = h->NodeChunk.Used++;
    Node[k].Length = Size; Node[k].UsedLength = 0; Used[k] = 1; *New = TRUE; *Out = &Node[k];
    return k;
}
/* any two names may share a slot */
static int SlotOf(const char *k) { return k[0] & 1; }
extern int KeyOf(const char *Key, const Cht_Node *n);
int CacheHT_InsertToSlot(CacheHT *h, const char *Key, int i, Cht_Node *n, const uint32_t *v)
{
    vp_assert(i >= 0 && i < NODES && n == &Node[i] && Used[i] && !Slot[i], "the node handed out is inserted");
    vp_assert(KeyOf(Key, n), "under the key that is stored in it");
    Slot[i] = SlotOf(Key) + 1;
    return 0;
}
int CacheHT_RemoveFromSlot(CacheHT *h, int32_t i, Cht_Node *n)
{
    vp_assert(i >= 0 && i < h->NodeChunk.Used && n == &Node[i] && Used[i] && Slot[i], "an inserted node is removed, once");
    Used[i] = 0; Slot[i] = 0;
    if( i == h->NodeChunk.Used - 1 ) --h->NodeChunk.Used;
    return 0;
}
Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const uint32_t *v)
{
    int k, s = SlotOf(Key) + 1, from = Start == NULL ? NODES - 1 : -1;
    for( k = 0; k < NODES; ++k ) if( Start == &Node[k] ) from = k - 1;
    for( k = NODES - 1; k >= 0; --k ) if( k <= from && Used[k] && Slot[k] == s ) return &Node[k];
    return NULL;
}
