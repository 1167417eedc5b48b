/* sscanf for %Ns, %u, %d, %x, %hu, %N[^c] and literal text, over texts without other white space than blanks. */
#include <stdarg.h>
#include <stdint.h>
static int Blank(char c) { return c == ' ' || c == '\t'; }
int vp_sscanf(const char *s, const char *f, ...)
{
    va_list l; int done = 0, any, w; char *o; unsigned v;
    va_start(l, f);
    while( *f )
    {
        if( Blank(*f) ) { while( Blank(*s) ) ++s; ++f; continue; }
        if( *f != '%' ) { if( *s != *f ) break; ++s; ++f; continue; }
        ++f;
        for( w = 0; *f >= '0' && *f <= '9'; ++f ) w = w * 10 + *f - '0';
        any = 0;
        if( *f == '[' )
        {
            /* %N[^c] */
            o = va_arg(l, char *);
            while( *s && *s != f[2] && (w == 0 || any < w) ) { o[any] = *s; ++s; ++any; }
            if( any == 0 ) break;
            o[any] = 0;
            f += 4; ++done;
            continue;
        }
        while( Blank(*s) ) ++s;
        if( *f == 's' )
        {
            o = va_arg(l, char *);
            while( *s && !Blank(*s) && (w == 0 || any < w) ) { o[any] = *s; ++s; ++any; }
            if( any == 0 ) break;
            o[any] = 0;
        }
        else if( *f == 'x' )
        {
            unsigned *u = va_arg(l, unsigned *);
            for( v = 0; ; ++s )
            {
                if( *s >= '0' && *s <= '9' ) v = v * 16 + (unsigned)(*s - '0');
                else if( *s >= 'a' && *s <= 'f' ) v = v * 16 + (unsigned)(*s - 'a' + 10);
                else if( *s >= 'A' && *s <= 'F' ) v = v * 16 + (unsigned)(*s - 'A' + 10);
                else break;
                any = 1;
            }
            if( !any ) break;
            *u = v;
        }
        else if( *f == 'h' )
        {
            unsigned short *u = va_arg(l, unsigned short *);
            ++f;
            for( v = 0; *s >= '0' && *s <= '9'; ++s ) { v = v * 10 + (unsigned)(*s - '0'); any = 1; }
            if( !any ) break;
            *u = (unsigned short)v;
        }
        else
        {
            unsigned *u = va_arg(l, unsigned *); int neg = 0;
            if( *s == '-' ) { neg = 1; ++s; } else if( *s == '+' ) ++s;
            for( v = 0; *s >= '0' && *s <= '9'; ++s ) { v = v * 10 + (unsigned)(*s - '0'); any = 1; }
            if( !any ) break;
            *u = neg ? 0 - v : v;
        }
        ++f; ++done;
    }
    va_end(l);
    if( done == 0 && *s == 0 ) return -1;
    return done;
}
