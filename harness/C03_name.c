/*VP {
 "srcs": ["dnsparser.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy": "vp_memcpy"},
 "unwind": "L+2",
 "unwindset": {"vp_.*": "L+2", "vp_memcpy.*": "B", "DNSGetHostName": "STEPS+2", "RefDecode.*": "STEPS+2"},
 "bounds": "every message of exactly L bytes (all byte values; in variant far: 16 arbitrary bytes at offset 256 and 4 at the name, zero elsewhere), every name start inside it, names of at most STEPS labels and pointers (variants all: unlimited), output buffers of exactly B bytes; TEXT=0 compares acceptance and length only",
 "stubs": ["logging is empty"],
 "variants": {
 "all10": {"defs": ["L=10","B=10","STEPS=11","TEXT=1"], "weight": 3},
 "all10s": {"defs": ["L=10","B=4","STEPS=11","TEXT=1"]},
 "text14": {"defs": ["L=14","B=12","STEPS=4","TEXT=1"], "weight": 3},
 "form20": {"defs": ["L=20","B=16","STEPS=4","TEXT=0"], "weight": 3},
 "far": {"defs": ["L=284","B=16","STEPS=3","TEXT=1","FAR"]},
 "text20": {"tiers": ["thorough"], "defs": ["L=20","B=16","STEPS=4","TEXT=1"], "weight": 5},
 "all14": {"tiers": ["thorough"], "defs": ["L=14","B=12","STEPS=14","TEXT=1"], "weight": 5},
 "form26": {"tiers": ["thorough"], "defs": ["L=26","B=20","STEPS=5","TEXT=0"], "weight": 5}
 }
} VP*/
#include "vp.h"
#include "dnsparser.h"

/* Reference decoder (RFC 1035 4.1.4, backward pointers only).
 * Returns the encoded length at the start position, -1 if malformed or if the text does
 * not fit in size bytes; *c is the character of the text at index k. */
static int RefDecode(const uint8_t *m, int start, int size, int k, int *c)
{
    int pos = start, limit = start, enc = -1, out = 0, step, n = -1, f = -1;
    for( step = 0; step <= STEPS; ++step )
    {
        if( pos >= L ) return -1;
        n = m[pos];
        if( n == 0 ) { if( enc < 0 ) enc = pos + 1 - start; break; }
        vp_assume(step < STEPS);
        if( n >= 0xC0 )
        {
            int t;
            if( pos + 1 >= L ) return -1;
            t = (n & 0x3F) * 256 + m[pos + 1];
            if( enc < 0 ) enc = pos + 2 - start;
            if( t >= limit ) return -1;
            limit = t; pos = t;
        } else {
            if( pos + 1 + n >= L || out + n + 1 > size ) return -1;
            if( out <= k && k < out + n ) f = pos + 1 + k - out;
            if( k == out + n ) f = L;
            out += n + 1;
            pos += n + 1;
        }
    }
    *c = (k == out - 1 || (out == 0 && k == 0)) ? 0 : f == L ? '.' : f >= 0 ? m[f] : -1;
    return enc;
}

static uint8_t m[L];
static char buf[B];
void vp_harness(void)
{
    int start, r, e, k, c = -1;
#ifdef FAR
    vp_bytes(m + 256, 16);
    vp_bytes(m + 276, 4);
    start = vp_range(276, 277);
#else
    vp_bytes(m, L);
    start = vp_range(0, L - 1);
#endif
    k = vp_range(0, B - 1);
    e = RefDecode(m, start, B, k, &c);
    r = DNSGetHostName((char *)m, L, (char *)m + start, buf, B);
    if( e >= 0 ) vp_assert(DNSGetHostName((char *)m, L, (char *)m + start, NULL, 0) == e, "length without decoding");
    vp_assert((r >= 0) == (e >= 0), "accepted iff well-formed and it fits");
    if( r >= 0 )
    {
        vp_assert(r == e, "encoded length at the start position");
        if( TEXT && c >= 0 ) vp_assert((uint8_t)buf[k] == c, "decoded text, at any index");
        vp_witness("accepted");
        if( start > 2 && m[start] >= 0xC0 && c > 0 ) vp_witness("compressed");
    } else {
        vp_witness("rejected");
    }
}
