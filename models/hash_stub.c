#include <stdint.h>
/* HASH as some deterministic function of the text (the real multiplication is hard for SAT
 * and no property depends on which function it is). */
uint32_t BKDRHash(const char *s, uint32_t u)
{
    uint32_t h = 0;
    while( *s ) { h = (h << 5 | h >> 27) ^ (unsigned char)*s; ++s; }
    return h;
}
