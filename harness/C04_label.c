/*VP {
 "srcs": ["dnsgenerator.c"],
 "models": ["logs_stub.c"],
 "unwind": 4,
 "unwindset": {"vp_.*": "CAP+1", "(strlen|strcpy|memmove|DNSLabelizedName).*": "NAME+4"},
 "bounds": "a question whose name is up to NAME letters in labels of any length up to 70 (one: a dot anywhere or none; three: dots at three places), generated into CAP bytes",
 "variants": {
  "one": {"defs": ["NAME=68", "CAP=90", "LONG=0", "LO=0"]},
  "three": {"defs": ["NAME=254", "CAP=280", "LONG=1", "LO=253"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "dnsgenerator.h"
int IPv4AddressToNum(const char *asc, void *B) { return 4; }
int IPv6AddressToNum(const char *asc, void *B) { return 16; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t) { return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p) { return -1; }
int DNSCopyLable(const char *b, int l, char *h, const char *s) { return -1; }
static uint8_t buf[CAP];
static char t[NAME + 1];
void vp_harness(void)
{
    DnsGenerator g;
    int n = LONG ? vp_range(LO, NAME) : vp_range(60, NAME), dot = LONG ? 189 : vp_range(0, NAME), k, rc, ok, l = 0;
    ok = n + 2 <= 255;
    for( k = 0; k < NAME; ++k )
    {
        t[k] = k >= n ? 0 : k == dot || (LONG && (k == 62 || k == 125)) ? '.' : 'a';
        if( k >= n ) continue;
        if( t[k] == '.' ) { if( l == 0 || l > 63 ) ok = 0; l = 0; } else ++l;
    }
    if( l == 0 || l > 63 ) ok = 0;
    buf[5] = 0;
    vp_assume(DnsGenerator_Init(&g, (char *)buf, CAP, NULL, 0, FALSE) == 0);
    rc = g.Question(&g, t, 1, 1);
    vp_assert((rc == 0) == ok, "a name is encoded iff its labels are of 1 to 63 characters and it is not longer than 255");
    vp_assert(buf[5] == ok, "counted iff generated");
    if( rc == 0 )
    {
        vp_assert(g.Length(&g) == 12 + n + 2 + 4 && buf[12] > 0 && buf[12] < 64 && buf[12 + n + 1] == 0, "the whole name");
        if( dot < n ) vp_assert(buf[13 + dot] == n - dot - 1, "length of the last label");
        vp_witness("encoded");
    } else vp_witness("refused");
}
