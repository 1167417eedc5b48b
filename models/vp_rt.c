#include "vp.h"
#ifdef VP_CBMC
uint8_t vp_nd8; uint16_t vp_nd16; uint32_t vp_nd32;
uint8_t nondet_u8_(void); uint16_t nondet_u16_(void); uint32_t nondet_u32_(void);
uint8_t vp_u8(void)  { vp_nd8 = nondet_u8_(); return vp_nd8; }
uint16_t vp_u16(void){ vp_nd16 = nondet_u16_(); return vp_nd16; }
uint32_t vp_u32(void){ vp_nd32 = nondet_u32_(); return vp_nd32; }
void *vp_alloc(int n){ void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
#else
#include <stdio.h>
static FILE *tape; static long used, dry;
static unsigned long next_(void)
{
    unsigned long v;
    if( tape == NULL ) {
        const char *f = getenv("VP_TAPE");
        tape = f ? fopen(f, "r") : NULL;
        if( tape == NULL ) { fprintf(stderr, "VP-NO-TAPE\n"); _Exit(78); }
    }
    if( fscanf(tape, "%lu", &v) != 1 ) { ++dry; return 0; }
    ++used;
    return v;
}
uint8_t vp_u8(void)  { return (uint8_t)next_(); }
uint16_t vp_u16(void){ return (uint16_t)next_(); }
uint32_t vp_u32(void){ return (uint32_t)next_(); }
void *vp_alloc(int n){ return malloc(n); }
void vp_assume_(int c, const char *t)
{
    if( !c ) { printf("VP-ASSUME-FALSE %s\n", t); fflush(stdout); _Exit(77); }
}
void vp_assert_(int c, const char *t, const char *f, int l)
{
    if( !c ) { printf("VP-ASSERT-FAIL %s (%s:%d)\n", t, f, l); fflush(stdout); _Exit(42); }
}
void vp_witness_(const char *n) { printf("VP-WITNESS %s\n", n); fflush(stdout); }
const char *__asan_default_options(void) { return "detect_leaks=0:exitcode=43:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=44:print_stacktrace=0"; }
int main(void)
{
    vp_harness();
    printf("VP-DONE used=%ld dry=%ld\n", used, dry); fflush(stdout);
    _Exit(0);
}
#endif
int vp_range(int lo, int hi)
{
    int v = (int)vp_u32();
    vp_assume(v >= lo && v <= hi);
    return v;
}
int vp_bool(void) { uint8_t b = vp_u8(); vp_assume(b <= 1); return b; }
void vp_bytes(void *p, int n)
{
    int k;
    for( k = 0; k < n; ++k ) { ((uint8_t *)p)[k] = vp_u8(); }
}
