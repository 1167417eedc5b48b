#include <stddef.h>
/* Byte-loop forms of libc functions, used through the header key "rename" so that
 * copies of symbolic length need only a loop bound instead of unbounded arrays. */
void *vp_memcpy(void *d, const void *s, size_t n)
{ size_t k; for( k = 0; k < n; ++k ) ((char *)d)[k] = ((const char *)s)[k]; return d; }
void *vp_memmove(void *d, const void *s, size_t n)
{
    size_t k;
    if( (const char *)d <= (const char *)s ) { for( k = 0; k < n; ++k ) ((char *)d)[k] = ((const char *)s)[k]; }
    else { for( k = n; k > 0; --k ) ((char *)d)[k - 1] = ((const char *)s)[k - 1]; }
    return d;
}
void *vp_memset(void *d, int c, size_t n)
{ size_t k; for( k = 0; k < n; ++k ) ((char *)d)[k] = (char)c; return d; }
