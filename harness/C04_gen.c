/*VP {
 "srcs": ["dnsgenerator.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy@dnsgenerator.c": "vp_memcpy", "memmove@dnsgenerator.c": "vp_memmove"},
 "unwind": 4,
 "unwindset": {"vp_bytes.*": "CAP+1", "vp_memcpy.*": 17, "vp_memmove.*": "NAME+4", "IPv6AddressToNum.*": 17, "(strlen|strcpy|DNSLabelizedName|Wire|vp_text).*": "NAME+3"},
 "bounds": "a question and one record (KIND) generated into a buffer of any size up to CAP bytes; names are any text of up to NAME characters; any type, class, data, lifetime",
 "stubs": ["the address texts are converted by a stand-in with known result (the conversion is decided under C19)"],
 "variants": {
  "name": {"defs": ["KIND=1", "NAME=3", "CAP=48"]},
  "mx": {"defs": ["KIND=2", "NAME=3", "CAP=48"]},
  "a": {"defs": ["KIND=3", "NAME=4", "CAP=48"]},
  "aaaa": {"defs": ["KIND=4", "NAME=3", "CAP=60"]},
  "raw": {"defs": ["KIND=5", "NAME=3", "CAP=44"]},
  "edns": {"defs": ["KIND=6", "NAME=4", "CAP=40"]},
  "g1": {"defs": ["KIND=7", "GT=1", "NAME=3", "CAP=44"]},
  "g65": {"defs": ["KIND=7", "GT=65", "NAME=2", "CAP=40"]},
  "g12": {"defs": ["KIND=7", "GT=12", "NAME=2", "CAP=42"]},
  "g2": {"defs": ["KIND=7", "GT=2", "NAME=2", "CAP=42"]},
  "g15": {"defs": ["KIND=7", "GT=15", "NAME=2", "CAP=44"]},
  "gother": {"defs": ["KIND=7", "GT=0", "NAME=2", "CAP=44"]}
  }
} VP*/
#include "vp.h"
#include "dnsgenerator.h"
#ifndef GT
#define GT 0
#endif

static uint8_t buf[CAP];
static char qn[NAME + 1], rn[NAME + 1], dn[NAME + 3];
static uint8_t addr[16];
int IPv4AddressToNum(const char *asc, void *B) { int k; for( k = 0; k < 4; ++k ) ((uint8_t *)B)[k] = addr[k]; return 4; }
int IPv6AddressToNum(const char *asc, void *B) { int k; for( k = 0; k < 16; ++k ) ((uint8_t *)B)[k] = addr[k]; return 16; }
void DnsSimpleParser_Dummy(void) { }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t) { return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p) { return -1; }
int DNSCopyLable(const char *b, int l, char *h, const char *s) { return -1; }

static int bad;
/* any text; bad if it has an empty label; returns its length */
static int vp_text(char *t)
{
    int n = vp_range(0, NAME), k;
    bad = 0;
    for( k = 0; k < NAME; ++k )
    {
        t[k] = k < n ? (char)vp_u8() : 0;
        if( k < n ) { vp_assume(t[k] != 0); if( t[k] == '.' && (k == 0 || k == n - 1 || t[k - 1] == '.') ) bad = 1; }
    }
    t[NAME] = 0;
    return n;
}
/* the byte number x of the encoding of t (length n) */
static int Wire(const char *t, int n, int x)
{
    int k, l = 0;
    if( n == 0 || x == n + 1 ) return 0;
    if( x > 0 && t[x - 1] != '.' ) return (uint8_t)t[x - 1];
    for( k = x; k < NAME && t[k] != 0 && t[k] != '.'; ++k ) ++l;
    return l;
}
#define U16(v, p) ((p)[0] == (((v) >> 8) & 255) && (p)[1] == ((v) & 255))
#define WLEN(n) ((n) == 0 ? 1 : (n) + 2)

void vp_harness(void)
{
    DnsGenerator g;
    int q, r, d, cap, qt, qc, t, c, x, pre, k, need, at, rc, ttl, rdlen, dl, pref, e, qbad, rbad, dbad, unn = 0;
    uint8_t was;
    cap = vp_range(12, CAP);
    vp_bytes(buf, CAP);
    vp_bytes(addr, 16);
    q = vp_text(qn); qbad = bad; r = vp_text(rn); rbad = bad; d = vp_text(dn); dbad = bad;
    qt = vp_u16(); qc = vp_u16(); t = vp_u16(); c = vp_u16(); ttl = (int)vp_u32(); pref = vp_u16(); dl = vp_range(0, 6);
    x = vp_range(0, CAP - 1);
    was = buf[x];
    vp_assume(DnsGenerator_Init(&g, (char *)buf, cap, NULL, 0, FALSE) == 0);
    rc = g.Question(&g, qn, qt, qc);
    need = 12 + WLEN(q) + 4;
    vp_assert((rc == 0) == (need <= cap && !qbad), "a question is generated iff it fits and its name can be encoded");
    if( rc == 0 )
    {
        vp_assert(g.Length(&g) == need, "length after the question");
        for( k = 0; k < 3 && g.NextPurpose(&g) != (KIND == 6 ? DNS_RECORD_PURPOSE_ADDITIONAL : DNS_RECORD_PURPOSE_ANSWER); ++k );
        at = need;
        switch( KIND )
        {
        case 1: unn = dbad; rc = g.CName(&g, rn, dn, ttl); t = 5; c = 1; rdlen = WLEN(d); break;
        case 2: unn = dbad; rc = g.MX(&g, rn, pref, dn, ttl); t = 15; c = 1; rdlen = 2 + WLEN(d); break;
        case 3: rc = g.A(&g, rn, "1.2.3.4", ttl); t = 1; c = 1; rdlen = 4; break;
        case 4: rc = g.AAAA(&g, rn, "::", ttl); t = 28; c = 1; rdlen = 16; break;
        case 5: rc = g.RawData(&g, rn, t, c, (char *)addr, dl, ttl); rdlen = dl; break;
        case 6: rc = g.EDns(&g, pref); r = 0; rn[0] = 0; rbad = 0; t = 41; c = pref; ttl = 0; rdlen = 0; break;
        default:
            if( GT ) t = GT; else vp_assume(t != 1 && t != 28 && t != 16 && t != 65 && t != 5 && t != 2 && t != 12 && t != 15);
            if( GT == 15 )
            {
                for( k = NAME; k >= 0; --k ) dn[k + 2] = dn[k];
                dn[0] = pref >> 8; dn[1] = pref;
                rdlen = 2 + WLEN(d);
            } else rdlen = GT == 5 || GT == 2 || GT == 12 ? WLEN(d) : dl;
            rc = g.Generate(&g, rn, t, c, GT == 15 || GT == 5 || GT == 2 || GT == 12 ? dn : (char *)addr, dl, ttl);
            if( GT == 15 || GT == 5 || GT == 2 || GT == 12 ) { c = 1; unn = dbad; }
            break;
        }
        need = at + WLEN(r) + 10 + rdlen;
        e = need <= cap && !rbad && !unn && (rdlen > 0 || KIND == 6);
        if( KIND == 7 && GT == 0 ) e = 0;
        vp_assert((rc == 0) == e, "a record is generated iff it fits, its names can be encoded and its data is there");
        vp_assert(buf[4] == 0 && buf[5] == 1, "one question");
        vp_assert(buf[7] == (e && KIND != 6) && buf[11] == (e && KIND == 6) && buf[6] + buf[8] + buf[9] + buf[10] == 0, "the record is counted in its section iff it was generated");
        if( rc == 0 )
        {
            int n = at + WLEN(r), y;
            vp_assert(g.Length(&g) == need, "length");
#if KIND != 7 || GT != 0
            vp_witness("generated");
#endif
            if( x >= 12 && x < at - 4 ) vp_assert(buf[x] == Wire(qn, q, x - 12), "question name");
            if( x == at - 1 ) vp_assert(buf[x] == (qc & 255) && buf[x - 1] == qc >> 8 && buf[x - 2] == (qt & 255) && buf[x - 3] == qt >> 8, "question type and class");
            if( x >= at && x < n ) vp_assert(buf[x] == Wire(rn, r, x - at), "record name");
            if( x == n ) vp_assert(U16(t, buf + n) && U16(c, buf + n + 2) && U16((uint32_t)ttl >> 16, buf + n + 4) && U16(ttl, buf + n + 6) && U16(rdlen, buf + n + 8), "type, class, lifetime, data length");
            if( x >= n + 10 && x < need )
            {
                y = x - n - 10;
                if( KIND == 2 || (KIND == 7 && GT == 15) )
                {
                    if( y < 2 ) vp_assert(buf[x] == (y == 0 ? pref >> 8 : pref & 255), "preference");
                    else vp_assert(buf[x] == Wire(KIND == 7 ? dn + 2 : dn, d, y - 2), "server name");
                } else if( KIND == 1 || (KIND == 7 && (GT == 5 || GT == 2 || GT == 12)) ) vp_assert(buf[x] == Wire(dn, d, y), "target name");
                else vp_assert(buf[x] == addr[y], "data");
            }
        }
    }
    if( rc != 0 ) vp_witness("refused");
    if( x >= cap ) vp_assert(buf[x] == was, "nothing is written beyond the buffer");
    if( x < 4 ) vp_assert(buf[x] == was, "identifier and flags are left alone");
}
