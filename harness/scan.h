/* sscanf where a number in the text stands for any number: a run of digits d...d is read as
 * Val[d], so that the shape of the text is concrete and the numbers are symbolic. */
#include <stdarg.h>
#include <stdint.h>
static unsigned Val[16];
static int Digit(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
static int Which(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
int vp_sscanf(const char *s, const char *f, ...)
{
    va_list l; int done = 0, any, w; char *o; unsigned v;
    va_start(l, f);
    while( *f )
    {
        if( *f != '%' ) { if( *s != *f ) break; ++s; ++f; continue; }
        ++f;
        for( w = 0; *f >= '0' && *f <= '9'; ++f ) w = w * 10 + *f - '0';
        any = 0;
        if( *f == '[' )
        {
            o = va_arg(l, char *);
            while( *s && *s != f[2] && any < w ) { o[any] = *s; ++s; ++any; }
            if( any == 0 ) break;
            o[any] = 0;
            f += 4; ++done;
            continue;
        }
        while( *s == ' ' ) ++s;
        v = 0;
        if( Digit(*s) ) { v = Val[Which(*s)]; any = 1; while( Digit(*s) ) ++s; }
        if( *f == 'h' ) { unsigned short *u = va_arg(l, unsigned short *); ++f; if( !any ) break; *u = (unsigned short)v; }
        else { unsigned *u = va_arg(l, unsigned *); if( !any ) break; *u = v; }
        ++f; ++done;
    }
    va_end(l);
    if( done == 0 && *s == 0 ) return -1;
    return done;
}
