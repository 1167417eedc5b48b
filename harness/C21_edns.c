/*VP {
 "srcs": ["iheader.c", "dnsgenerator.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memmove@dnsgenerator.c": "vp_memmove"},
 "unwind": 8,
 "unwindset": {"vp_.*": "ML+1", "vp_memmove.*": "ML+1"},
 "bounds": "every query of 12 to ML-2 bytes in a buffer with any room up to ML bytes, every combination of section counts up to 65534",
 "assumptions": ["the query ends with its last record (no trailing bytes)"],
 "variants": {
  "all": {"defs": ["ML=36"]}
  }
} VP*/
#include "vp.h"
#include "iheader.h"
#include "dnsgenerator.h"
int IPv4AddressToNum(const char *asc, void *B) { return 4; }
int IPv6AddressToNum(const char *asc, void *B) { return 16; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t) { return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p) { return -1; }
int DNSCopyLable(const char *b, int l, char *h, const char *s) { return -1; }
char *DNSJumpOverName(char *n) { return n; }
int GetAddressLength(sa_family_t f) { return 16; }
char *StrToLower(char *s) { return s; }

static struct { IHeader h; uint8_t m[ML]; } c;
static uint8_t old[ML];
#define U16AT(m, p) ((m)[p] * 256 + (m)[(p) + 1])
void vp_harness(void)
{
    int n = vp_range(12, ML - 2), room = vp_range(12, ML), ap = vp_bool(), e = vp_bool(), k, fits, rc, x, twice = vp_bool(), ar;
    static const uint8_t opt[11] = {0, 0, 41, 5, 0, 0, 0, 0, 0, 0, 0};
    vp_assume(n <= room);
    vp_bytes(c.m, ML);
    for( k = 0; k < ML; ++k ) old[k] = c.m[k];
    x = vp_range(0, ML - 1);
    vp_assume(U16AT(old, 4) == 1);
    ar = U16AT(old, 10);
    vp_assume(ar < 65535);
    c.h.EntityLength = n; c.h.EDNSEnabled = e;
    MsgContext_Init(ap);
    fits = n + 11 <= room;
    vp_assert(MsgContext_IsBlocked((MsgContext *)&c) == (ap && !e), "a response without EDNS is refused iff the option asks for it");
    rc = MsgContext_AddFakeEdns((MsgContext *)&c, sizeof(IHeader) + room);
    if( rc == 0 && twice ) rc = MsgContext_AddFakeEdns((MsgContext *)&c, sizeof(IHeader) + room);
    if( !ap || e )
    {
        vp_assert(rc == 0 && c.h.EntityLength == n && c.m[x] == old[x], "nothing changes unless EDNS has to be added");
        vp_witness("unchanged");
    } else {
        vp_assert((rc == 0) == fits, "EDNS is added iff there is room");
        if( rc == 0 )
        {
            vp_assert(c.h.EntityLength == n + 11 && c.h.EDNSEnabled, "one record longer, once");
            vp_assert(U16AT(c.m, 10) == ar + 1, "counted as additional record");
            if( x < 10 || (x >= 12 && x < n) ) vp_assert(c.m[x] == old[x], "the query itself is kept");
            if( x >= n && x < n + 11 ) vp_assert(c.m[x] == opt[x - n], "the record is an EDNS record");
            vp_assert(!MsgContext_IsBlocked((MsgContext *)&c), "not refused then");
            vp_witness("added");
        } else {
            vp_assert(c.h.EntityLength == n && !c.h.EDNSEnabled && U16AT(c.m, 10) == ar, "without room it is not announced");
            vp_witness("full");
        }
    }
    if( x >= room || (rc != 0 && x < n) ) vp_assert(c.m[x] == old[x], "nothing beyond the buffer is written");
}
