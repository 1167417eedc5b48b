/* Reference reading of names and records (RFC 1035), shared by harnesses.
 * Written against the RFC, not against the code under test. */
#ifndef REFNAME_H
#define REFNAME_H
#define U16AT(m, p) ((m)[p] * 256 + (m)[(p) + 1])
/* Encoded length of the name at pos (stopping at the first pointer), -1 if it leaves the
 * message.  Assumes at most `labels' labels. */
static int RefNameLen(const uint8_t *m, int len, int pos, int labels)
{
    int p = pos, k;
    for( k = 0; k <= labels; ++k )
    {
        if( p >= len ) return -1;
        if( m[p] == 0 ) return p + 1 - pos;
        vp_assume(k < labels || m[p] >= 0xC0);
        if( m[p] >= 0xC0 ) return p + 2 > len ? -1 : p + 2 - pos;
        if( p + 1 + m[p] >= len ) return -1;
        p += 1 + m[p];
    }
    return -1;
}
/* Character at index k of the dotted text of the name at start (0 at the end, -1 beyond);
 * *enc is the encoded length, -1 if malformed.  At most `steps' labels and pointers. */
static int RefNameChar(const uint8_t *m, int len, int start, int size, int steps, int k, int *enc)
{
    int pos = start, limit = start, out = 0, step, n = -1, f = -1, e = -1;
    *enc = -1;
    for( step = 0; step <= steps; ++step )
    {
        if( pos >= len ) return -1;
        n = m[pos];
        if( n == 0 ) { if( e < 0 ) e = pos + 1 - start; break; }
        vp_assume(step < steps);
        if( n >= 0xC0 )
        {
            int t;
            if( pos + 1 >= len ) return -1;
            t = (n & 0x3F) * 256 + m[pos + 1];
            if( e < 0 ) e = pos + 2 - start;
            if( t >= limit ) return -1;
            limit = t; pos = t;
        } else {
            if( pos + 1 + n >= len || out + n + 1 > size ) return -1;
            if( out <= k && k < out + n ) f = pos + 1 + k - out;
            if( k == out + n ) f = len;
            out += n + 1;
            pos += n + 1;
        }
    }
    *enc = e;
    return (k == out - 1 || (out == 0 && k == 0)) ? 0 : f == len ? '.' : f >= 0 ? m[f] : -1;
}
#endif
