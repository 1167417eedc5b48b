/*VP {
 "srcs": ["array.c", "utils.c"],
 "models": ["logs_stub.c"],
 "rename": {"qsort@array.c": "vp_qsort"},
 "unwind": "N+3",
 "bounds": "N appended elements of 8 bytes, initial room for INIT, then one element stored at any position up to N+1 and a sort",
 "stubs": ["qsort is recorded"],
 "variants": {
  "i0": {"defs": ["N=4", "INIT=0", "DOWN=0", "SORT=0"]},
  "i2": {"defs": ["N=3", "INIT=2", "DOWN=0", "SORT=0"]},
  "sort": {"defs": ["N=3", "INIT=3", "DOWN=0", "SORT=1"]},
  "d4": {"defs": ["N=4", "INIT=0", "DOWN=1", "SORT=0"]}
  }
} VP*/
#include "vp.h"
#include "array.h"
typedef struct { int Key, Tag; } El;
static El room[N + 4];
static void *qb; static size_t qn, qz;
void vp_qsort(void *b, size_t n, size_t z, int (*cmp)(const void *, const void *)) { qb = b; qn = n; qz = z; }
static int Cmp(const void *a, const void *b) { int x = ((const El *)a)->Key, y = ((const El *)b)->Key; return x < y ? -1 : x > y; }
void vp_harness(void)
{
    Array a;
    int n, key[N + 2], w = SORT ? vp_range(0, N - 1) : vp_range(0, N + 1), q = vp_range(-1, N + 2), used = N, bound = vp_range(0, N + 3), k;
    El e, *p;
    vp_assume(Array_Init(&a, sizeof(El), INIT, DOWN, &room[N + 3]) == 0);
    for( n = 0; n < N; ++n )
    {
        int r;
        e.Key = key[n] = (int8_t)vp_u8(); e.Tag = n;
        r = Array_PushBack(&a, &e, DOWN ? &room[bound] : NULL);
        if( DOWN && N + 3 - n < bound ) { vp_assert(r < 0, "a full array refuses"); used = n; break; }
        vp_assert(r == n, "appended at the end");
    }
    vp_assert(Array_GetUsed(&a) == used, "number of elements");
    p = Array_GetBySubscript(&a, q);
    vp_assert((p != NULL) == (q >= 0 && q < used), "an element exists iff it was appended");
    if( p != NULL ) vp_assert(p->Key == key[q] && p->Tag == q, "it is the one appended there");
    if( !DOWN )
    {
        El *s;
        e.Key = 77; e.Tag = -7;
        s = Array_SetToSubscript(&a, w, &e);
        vp_assert(s != NULL && s == Array_GetBySubscript(&a, w) && s->Key == 77 && s->Tag == -7, "stored where asked");
        vp_assert(Array_GetUsed(&a) == (w + 1 > N ? w + 1 : N), "grown to hold it");
        p = Array_GetBySubscript(&a, q);
        if( q >= 0 && q < N && q != w ) vp_assert(p->Key == key[q] && p->Tag == q, "the others stay");
        if( SORT )
        {
            Array_Sort(&a, Cmp);
            vp_assert(qb == Array_GetBySubscript(&a, 0) && qn == N && qz == sizeof(El), "all elements are sorted, nothing else");
        }
        Array_Free(&a);
    }
    vp_witness("end");
}
