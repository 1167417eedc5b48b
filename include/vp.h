/* Verification primitives shared by every harness.
 *
 * Under CBMC (VP_CBMC) each vp_u*() is a fresh unconstrained symbolic value;
 * natively (replay) the same calls read, in the same order, the concrete values
 * the solver chose, so a counterexample is re-executed against the real code
 * built by gcc with ASan/UBSan. */
#ifndef VP_H
#define VP_H
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_CBMC
extern uint8_t  vp_nd8;
extern uint16_t vp_nd16;
extern uint32_t vp_nd32;
#define vp_assume(c)      __CPROVER_assume(c)
#define vp_assert(c, msg) __CPROVER_assert((c), "VP: " msg)
#define vp_witness(name)  __CPROVER_assert(0, "WITNESS: " name)
#else
void vp_assume_(int c, const char *text);
void vp_assert_(int c, const char *text, const char *file, int line);
void vp_witness_(const char *name);
#define vp_assume(c)      vp_assume_(!!(c), #c)
#define vp_assert(c, msg) vp_assert_(!!(c), msg, __FILE__, __LINE__)
#define vp_witness(name)  vp_witness_(name)
#endif

/* a bound of an environment model: asserted while developing (VP_STRICT), otherwise what
 * exceeds it is outside the claim */
#ifdef VP_STRICT
#define vp_model(c, msg)  vp_assert(c, msg)
#else
#define vp_model(c, msg)  vp_assume(c)
#endif

uint8_t  vp_u8(void);
uint16_t vp_u16(void);
uint32_t vp_u32(void);
int vp_range(int lo, int hi);          /* any value in [lo, hi] */
int vp_bool(void);
void vp_bytes(void *p, int n);         /* n arbitrary bytes (n constant) */
/* exactly n bytes of heap, so an access outside is an error for both engines */
void *vp_alloc(int n);

void vp_harness(void);
#endif
