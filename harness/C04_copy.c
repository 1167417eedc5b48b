/*VP {
 "srcs": ["dnsgenerator.c", "dnsparser.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy@dnsgenerator.c": "vp_memcpy", "memcpy@dnsparser.c": "vp_memcpy"},
 "unwind": 4,
 "unwindset": {"vp_bytes.*": "(L>CAP)*L+(CAP>=L)*CAP+1", "vp_memcpy.*": 17, "(DNSGetHostName|DNSCopyLable|RefName.*)": "LABELS+2"},
 "bounds": "one answer record of an arbitrary message of L bytes (names of at most LABELS labels or pointers) copied into a new message of any size up to CAP bytes; for CNAME records the owner is the root (the others decide owner names)",
 "variants": {
  "cname": {"defs": ["KIND=1", "L=32", "CAP=36", "LABELS=2"]},
  "a": {"defs": ["KIND=2", "L=36", "CAP=40", "LABELS=2"]},
  "aaaa": {"defs": ["KIND=3", "L=42", "CAP=44", "LABELS=2"]}
  }
} VP*/
#include "vp.h"
#include "dnsgenerator.h"
#include "refname.h"
int IPv4AddressToNum(const char *asc, void *B) { return 4; }
int IPv6AddressToNum(const char *asc, void *B) { return 16; }

static uint8_t m[L], buf[CAP];
/* length of the uncompressed encoding of the name at pos; assumes at most LABELS steps */
static int Expanded(int pos, int *enc)
{
    int limit = pos, out = 0, step, e = -1, st = pos;
    *enc = -1;
    for( step = 0; step <= LABELS; ++step )
    {
        int n;
        if( pos >= L ) return -1;
        n = m[pos];
        if( n == 0 ) { *enc = e < 0 ? pos + 1 - st : e; return out + 1; }
        vp_assume(step < LABELS);
        if( n >= 0xC0 )
        {
            int t;
            if( pos + 1 >= L ) return -1;
            t = (n & 0x3F) * 256 + m[pos + 1];
            if( e < 0 ) e = pos + 2 - st;
            if( t >= limit ) return -1;
            limit = pos = t;
        } else { if( pos + 1 + n >= L ) return -1; out += 1 + n; pos += 1 + n; }
    }
    return -1;
}
void vp_harness(void)
{
    DnsSimpleParser p;
    DnsSimpleParserIterator i;
    DnsGenerator g;
    int cap = vp_range(12, CAP), want = KIND == 1 ? 5 : KIND == 2 ? 1 : 28, ne, ex, te = 0, ce = -1, rd, dpos, need, fits, rc, x, k, c1, c2 = 0, e2, kk;
    uint8_t was;
    vp_bytes(m, L);
    vp_bytes(buf, CAP);
    x = vp_range(0, CAP - 1); was = buf[x]; k = vp_range(0, 8); kk = vp_range(0, 15);
    vp_assume(U16AT(m, 4) == 0 && U16AT(m, 6) == 1 && U16AT(m, 8) == 0 && U16AT(m, 10) == 0);
    ex = Expanded(12, &ne);
    if( KIND == 1 ) vp_assume(m[12] == 0);
    vp_assume(ne > 0 && 12 + ne + 10 <= L);
    rd = U16AT(m, 12 + ne + 8); dpos = 12 + ne + 10;
    vp_assume(dpos + rd <= L);
    if( KIND == 1 ) te = Expanded(dpos, &ce);
    need = 12 + ex + 10 + (KIND == 1 ? te : rd);
    fits = U16AT(m, 12 + ne) == want && U16AT(m, 12 + ne + 2) == 1 && need <= cap && (KIND == 1 ? te > 0 : rd == (KIND == 2 ? 4 : 16));
    c1 = RefNameChar(m, L, 12, 99, LABELS, k, &e2);
    if( KIND == 1 && te > 0 ) c2 = RefNameChar(m, L, dpos, 99, LABELS, k, &e2);

    vp_assume(DnsSimpleParser_Init(&p, (char *)m, L, FALSE) == 0 && DnsSimpleParserIterator_Init(&i, &p) == 0);
    vp_assume(i.Next(&i) != NULL);
    vp_assume(DnsGenerator_Init(&g, (char *)buf, cap, NULL, 0, FALSE) == 0);
    vp_assume(g.NextPurpose(&g) == DNS_RECORD_PURPOSE_ANSWER);
    rc = KIND == 1 ? g.CopyCName(&g, &i) : KIND == 2 ? g.CopyA(&g, &i) : g.CopyAAAA(&g, &i);
    vp_assert((rc == 0) == fits, "a record is copied iff it has the right type and form and fits");
    vp_assert(buf[7] == fits && buf[4] + buf[5] + buf[6] + buf[8] + buf[9] + buf[10] + buf[11] == 0, "it is counted iff it was copied");
    if( rc == 0 )
    {
        int n = 12 + ex, q;
        vp_assert(g.Length(&g) == need, "length");
        for( q = 0; q < 8; ++q ) vp_assert(buf[n + q] == m[12 + ne + q], "type, class and lifetime");
        vp_assert(buf[n + 8] * 256 + buf[n + 9] == need - n - 10, "data length");
        vp_assert(RefNameChar(buf, need, 12, 99, LABELS, k, &e2) == c1 && e2 == ex, "owner name, uncompressed");
        if( KIND == 1 ) { vp_assert(RefNameChar(buf, need, n + 10, 99, LABELS, k, &e2) == c2 && e2 == te, "target name, uncompressed"); }
        else if( kk < rd ) vp_assert(buf[n + 10 + kk] == m[dpos + kk], "data");
        vp_witness("copied");
    } else vp_witness("refused");
    if( x >= cap ) vp_assert(buf[x] == was, "nothing is written beyond the buffer");
}
