/*VP {
 "srcs": ["iheader.c", "dnsparser.c", "utils.c"],
 "models": ["logs_stub.c", "mem.c", "hash_stub.c"],
 "rename": {"memcpy@dnsparser.c": "vp_memcpy", "BKDRHash": "Real_BKDRHash"},
 "sed": [["iheader.h", "(char\\s+Domain)\\[[^\\]]*\\]", "\\1[12]"]],
 "unwind": "R+2",
 "unwindset": {"vp_.*": "L+2", "vp_memcpy.*": 12, "memcmp.*":20, "DNSGetHostName": "LABELS+2", "RefName.*": "LABELS+2", "(StrToLower|BKDRHash|strlen).*": 13, "strncpy.*": 50},
 "bounds": "every message of exactly L bytes (all byte values) whose header announces at most R records; names of at most LABELS labels or pointers",
 "stubs": ["logging is empty", "the 256-byte name buffer of the header is scaled to 12 bytes", "HASH is some deterministic function of the text"],
 "variants": {
 "a": {"defs": ["L=26","R=1","LABELS=2"]},
 "b": {"defs": ["L=32","R=2","LABELS=1"]}
 }
} VP*/
#include "vp.h"
#include "iheader.h"
#include "refname.h"

static uint8_t m[L];
static IHeader h;
uint32_t Real_BKDRHash(const char *s, uint32_t u) { return BKDRHash(s, u); }

void vp_harness(void)
{
    int qd, an, ns, ar, k, pos = 12, alive = 1, ok = 0, edns = 0, bad = 0, c = -1, x, e, r, type = 0;
    struct sockaddr_in from;
    int tcp;
    vp_bytes(m, L);
    qd = U16AT(m, 4); an = U16AT(m, 6); ns = U16AT(m, 8); ar = U16AT(m, 10);
    vp_assume(qd <= 1 && qd + an + ns + ar <= R);
    x = vp_range(0, 11);
    for( k = 1; k <= R && k <= qd + an + ns + ar; ++k )
    {
        int n = RefNameLen(m, L, pos, LABELS), rd = 0;
        if( n < 0 || pos + n + (k <= qd ? 4 : 10) > L ) break;
        if( U16AT(m, pos + n) == 0 || U16AT(m, pos + n + 2) == 0 ) break;
        if( k > qd ) { rd = U16AT(m, pos + n + 8); if( pos + n + 10 + rd > L ) break; }
        if( k <= qd )
        {
            c = RefNameChar(m, L, pos, sizeof(h.Domain), LABELS, x, &e);
            if( e < 0 || U16AT(m, pos + n + 2) != 1 ) break;
            ok = 1; type = U16AT(m, pos + n);
        }
        if( k > qd + an + ns && U16AT(m, pos + n) == 41 ) edns = 1;
        pos += n + (k <= qd ? 4 : 10 + rd);
    }
    tcp = vp_bool();
    vp_bytes(&from, sizeof(from));
    r = IHeader_Fill(&h, FALSE, (char *)m, L, tcp ? NULL : (struct sockaddr *)&from, 7, AF_INET, tcp ? NULL : "1.2.3.4");
    vp_assert((r == 0) == ok, "accepted iff it has a well-formed question of class IN");
    if( r == 0 )
    {
        vp_assert(h.Type == type, "type of the question");
        if( c >= 0 && x <= (int)strlen(h.Domain) ) vp_assert((uint8_t)h.Domain[x] == ((c >= 'A' && c <= 'Z') ? c + 32 : c), "name of the question in lower case");
        vp_assert(!!h.EDNSEnabled == edns, "EDNS iff an OPT record is in the additional section");
        vp_assert(h.EntityLength == L && h.SendBackSocket == 7 && h.Parent == NULL && !h.RequestTcp && !h.ReturnHeader, "length, socket");
        vp_assert(h.BackAddress.family == (tcp ? AF_UNSPEC : AF_INET), "family");
        if( !tcp ) vp_assert(memcmp(&h.BackAddress.Addr, &from, sizeof(from)) == 0, "return address");
        vp_assert(MsgContext_IsFromTCP((MsgContext *)&h) == tcp, "transport");
        vp_assert(tcp ? h.Agent[0] == 0 : strcmp(h.Agent, "1.2.3.4") == 0, "agent");
        vp_witness("accepted");
        if( edns ) vp_witness("edns");
    } else vp_witness("rejected");
}
