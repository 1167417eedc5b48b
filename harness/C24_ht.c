/*VP {
 "srcs": ["simpleht.c", "array.c", "utils.c"],
 "models": ["logs_stub.c"],
 "unwind": 16,
 "unwindset": {"SimpleHT_.*": 16, "vp_harness.*": "N+2"},
 "bounds": "N additions with arbitrary hash values (all of 0..255), growth of the table included (it grows at the 8th), then a lookup of any hash value and an enumeration",
 "variants": {
  "n4": {"defs": ["N=4", "ENUM=0"]},
  "n8": {"defs": ["N=8", "ENUM=0"]},
  "n9e": {"defs": ["N=9", "ENUM=1"]}
  }
} VP*/
#include "vp.h"
#include "simpleht.h"
typedef struct { int Tag; } El;
static uint32_t H[N];
static int seen[N];
void vp_harness(void)
{
    SimpleHT h;
    int n, k;
    vp_assume(SimpleHT_Init(&h, sizeof(El), 1, NULL) == 0);
    for( n = 0; n < N; ++n )
    {
        El e;
        H[n] = vp_u8(); e.Tag = n;
        vp_assert(SimpleHT_Add(&h, "k", 1, (const char *)&e, &H[n]) != NULL, "added");
    }
    if( ENUM )
    {
        int32_t s = 0;
        const El *e;
        for( k = 0; k <= N && (e = (const El *)SimpleHT_Enum(&h, &s)) != NULL; ++k ) { vp_assert(e->Tag >= 0 && e->Tag < N, "an element"); ++seen[e->Tag]; }
        for( n = 0; n < N; ++n ) vp_assert(seen[n] == 1, "enumeration yields every element once");
    } else {
        uint32_t q = vp_u8();
        const El *e = (const El *)SimpleHT_Find(&h, "k", 1, &q, NULL);
        for( k = 0; k <= N && e != NULL; ++k )
        {
            vp_assert(e->Tag >= 0 && e->Tag < N, "an element");
            ++seen[e->Tag];
            e = (const El *)SimpleHT_Find(&h, "k", 1, &q, (const char *)e);
        }
        vp_assert(e == NULL, "a lookup ends");
        for( n = 0; n < N; ++n ) vp_assert(seen[n] <= 1 && (H[n] != q || seen[n] == 1), "every element of that hash is met exactly once");
    }
    vp_witness("end");
}
