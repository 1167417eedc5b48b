/*VP {
 "srcs": ["utils.c"],
 "models": ["logs_stub.c"],
 "sed": [["utils.c", "\\bsprintf\\b", "vp_sprintf"], ["utils.h", "^", "int vp_sprintf_(char *o, const char *f, const unsigned *a);\n#define vp_sprintf(o, f, ...) vp_sprintf_(o, f, (unsigned[]){__VA_ARGS__, 0})\n"]],
 "defs": ["__NO_CTYPE"],
 "unwind": "42",
 "bounds": "every IPv4 address; every IPv6 address whose groups outside the variant's mask are zero (the mask's bits: groups with any value)",
 "stubs": ["printing of numbers modelled"],
 "variants": {
  "v4": {"defs": ["M=0", "SIX=0"]},
  "f6": {"defs": ["M=0xff", "SIX=1"], "tiers": ["thorough"]},
  "a6": {"defs": ["M=0xe1", "SIX=1"]},
  "b6": {"defs": ["M=0x1c", "SIX=1"]},
  "c6": {"defs": ["M=0x99", "SIX=1"]}
  }
} VP*/
#include "vp.h"
#include "utils.h"
sa_family_t AddressList_ConvertFromString(Address_Type *o, const char *s, int p) { return 0; }
int vp_sprintf_(char *o, const char *f, const unsigned *a)
{
    int n = 0; unsigned v;
    while( *f )
    {
        if( *f != '%' ) { o[n++] = *f++; continue; }
        ++f;
        v = *a++;
        if( *f == 'x' )
        {
            vp_model(v <= 0xffff, "model bound: %x");
            if( v >= 0x1000 ) o[n++] = "0123456789abcdef"[v >> 12];
            if( v >= 0x100 ) o[n++] = "0123456789abcdef"[v >> 8 & 15];
            if( v >= 0x10 ) o[n++] = "0123456789abcdef"[v >> 4 & 15];
            o[n++] = "0123456789abcdef"[v & 15];
        } else {
            vp_model(v <= 255 && (*f == 'u' || *f == 'd'), "model bound: %u");
            if( v >= 100 ) o[n++] = '0' + v / 100;
            if( v >= 10 ) o[n++] = '0' + v / 10 % 10;
            o[n++] = '0' + v % 10;
        }
        ++f;
    }
    o[n] = 0;
    return n;
}
static uint8_t A[16];
static char B[46];
static int V(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static int Hex(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f'); }
void vp_harness(void)
{
    int k, n, p = 0, at = -1, g = 0, ok = 1, x = vp_range(0, 15), len, shorts = 0;
    unsigned v, grp[9], w[8];
    for( k = 0; k < 8; ++k )
    {
        A[2 * k] = vp_u8(); A[2 * k + 1] = vp_u8();
        if( SIX ) vp_assume((M >> k & 1) || (A[2 * k] == 0 && A[2 * k + 1] == 0));
        grp[k] = w[k] = 0;
    }
    grp[8] = 0;
#if !SIX
    {
        n = IPv4AddressToAsc(A, B);
        for( k = 0; k < 4; ++k )
        {
            for( v = 0, len = 0; len < 3 && B[p] >= '0' && B[p] <= '9'; ++len ) v = v * 10 + B[p++] - '0';
            vp_assert(len > 0 && v == A[k], "each number is the address's");
            vp_assert(B[p] == (k < 3 ? '.' : 0), "dots between the numbers and nothing after them");
            ++p;
        }
        vp_assert(n == p - 1, "the length is returned");
        vp_witness("v4");
    }
#else
    n = IPv6AddressToAsc(A, B);
    vp_assert(n >= 2 && n <= 39, "the length is that of an address");
    vp_assert(B[n] == 0, "ended by a zero after the length returned");
    for( k = 0; k < 9; ++k )
    {
        if( p >= n || !ok ) break;
        if( B[p] == ':' && B[p + 1] == ':' ) { at = g; ++shorts; p += 2; if( p >= n ) break; }
        else if( g > 0 ) { ok = ok && B[p] == ':'; ++p; }
        for( v = 0, len = 0; len < 4 && p < n && Hex(B[p]); ++len ) v = v * 16 + V(B[p++]);
        ok = ok && len > 0;
        grp[g++] = v;
    }
    vp_assert(ok && p == n, "the text is an address");
    vp_assert(shorts <= 1, "shortened at most once");
    vp_assert(at >= 0 ? g < 8 : g == 8, "with eight groups");
    for( k = 0; k < 8; ++k ) if( at < 0 || k < at ) w[k] = grp[k];
    if( at >= 0 ) for( k = at; k < 8; ++k ) if( k < g ) w[8 - g + k] = grp[k];
    vp_assert(A[x] == ((x & 1) ? w[x / 2] & 255 : w[x / 2] >> 8), "and is the address");
    vp_witness("v6");
#endif
}
