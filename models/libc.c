/* libc string functions CBMC 6 has no body for.  Only under CBMC. */
#ifdef VP_CBMC
#include <stddef.h>
char *strpbrk(const char *s, const char *a)
{
    for( ; *s; ++s ) { const char *t; for( t = a; *t; ++t ) if( *t == *s ) return (char *)s; }
    return NULL;
}
size_t strspn(const char *s, const char *a)
{
    size_t n = 0;
    for( ; s[n]; ++n ) { const char *t; for( t = a; *t && *t != s[n]; ++t ); if( !*t ) break; }
    return n;
}
size_t strcspn(const char *s, const char *a)
{
    size_t n = 0;
    for( ; s[n]; ++n ) { const char *t; for( t = a; *t && *t != s[n]; ++t ); if( *t ) break; }
    return n;
}
char *strstr(const char *h, const char *n)
{
    for( ; ; ++h )
    {
        size_t k = 0;
        while( n[k] && h[k] == n[k] ) ++k;
        if( !n[k] ) return (char *)h;
        if( !*h ) return NULL;
    }
}
void *memchr(const void *s, int c, size_t n)
{
    size_t k;
    for( k = 0; k < n; ++k ) if( ((const unsigned char *)s)[k] == (unsigned char)c ) return (char *)s + k;
    return NULL;
}
size_t strnlen(const char *s, size_t n) { size_t k = 0; while( k < n && s[k] ) ++k; return k; }
char *strchrnul(const char *s, int c) { while( *s && *s != (char)c ) ++s; return (char *)s; }
char *stpcpy(char *d, const char *s) { while( (*d = *s) ) { ++d; ++s; } return d; }
#endif
