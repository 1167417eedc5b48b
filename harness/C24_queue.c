/*VP {
 "srcs": ["linkedqueue.c", "utils.c"],
 "models": ["logs_stub.c"],
 "unwind": "N+2",
 "bounds": "every history OPS of additions (any key, equal ones included) and removals of the first; elements of 8 bytes",
 "variants": {
  "AAAAGGGG": {"defs": ["N=4", "OPS=\"AAAAGGGG\""]},
  "AAGAGAGG": {"defs": ["N=4", "OPS=\"AAGAGAGG\""]},
  "AAAAIGGG": {"defs": ["N=4", "OPS=\"AAAAIGGGGG\""]},
  "AAAAAGAGGGGG": {"defs": ["N=6", "OPS=\"AAAAAGAGGGGG\""], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "linkedqueue.h"
typedef struct { int Key, Tag; } El;
static int Cmp(const void *a, const void *b) { int x = ((const El *)a)->Key, y = ((const El *)b)->Key; return x < y ? -1 : x > y; }
static int Key[N], Live[N];
void vp_harness(void)
{
    static const char ops[] = OPS;
    LinkedQueue q;
    int n, k, a = 0;
    LinkedQueue_Init(&q, sizeof(El), Cmp);
    for( n = 0; n < (int)sizeof(ops) - 1; ++n )
    {
        if( ops[n] == 'A' )
        {
            El e;
            e.Key = Key[a] = (int8_t)vp_u8(); e.Tag = a;
            vp_assert(q.Add(&q, &e) == 0, "added");
            Live[a++] = 1;
        } else if( ops[n] == 'I' )
        {
            LinkedQueueIterator i;
            int seen[N], last = -1000;
            El *e;
            for( k = 0; k < N; ++k ) seen[k] = 0;
            vp_assert(LinkedQueueIterator_Init(&i, &q) == 0, "iterator");
            for( k = 0; k < N && (e = i.Next(&i)) != NULL; ++k )
            {
                vp_assert(e->Tag >= 0 && e->Tag < a && Live[e->Tag] && !seen[e->Tag] && e->Key == Key[e->Tag] && e->Key >= last, "iteration: each live element once, in order");
                seen[e->Tag] = 1; last = e->Key;
            }
            for( k = 0; k < a; ++k ) vp_assert(seen[k] == Live[k], "iteration is complete");
        } else {
            El *e = q.Get(&q);
            int any = 0;
            for( k = 0; k < a; ++k ) any |= Live[k];
            vp_assert((e != NULL) == any, "something is handed out iff the queue is not empty");
            if( e != NULL )
            {
                vp_assert(e->Tag >= 0 && e->Tag < a && Live[e->Tag] && e->Key == Key[e->Tag], "a live element, unchanged");
                for( k = 0; k < a; ++k ) vp_assert(!Live[k] || Key[k] >= e->Key, "the least one");
                Live[e->Tag] = 0;
                LinkedQueue_FreeNode(e);
            }
        }
    }
    vp_witness("end");
    q.Free(&q);
}
