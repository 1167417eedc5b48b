/*VP {
 "srcs": ["dnsgenerator.c", "dnsparser.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy@dnsgenerator.c": "vp_memcpy", "memmove@dnsgenerator.c": "vp_memmove", "memcpy@dnsparser.c": "vp_memcpy"},
 "unwind": "NA+NE+3",
 "unwindset": {"vp_harness.*": "L+2", "vp_bytes.*": "L+1", "vp_memmove.*": "L-16", "(DNSGetHostName|RefName.*)": "LABELS+2"},
 "bounds": "every message of exactly L bytes with one question, NA answer records and NE further records, names of at most LABELS uncompressed labels",
 "assumptions": ["the message was generated: question, owners and CNAME targets uncompressed, owners not the root (generated answers use a placeholder)"],
 "variants": {
  "a1": {"defs": ["L=36", "NA=1", "NE=0", "LABELS=1"]},
  "a2": {"defs": ["L=46", "NA=2", "NE=0", "LABELS=1"]},
  "a1e": {"defs": ["L=44", "NA=1", "NE=1", "LABELS=1"]},
  "a3": {"defs": ["L=60", "NA=3", "NE=0", "LABELS=1"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "dnsgenerator.h"
#include "refname.h"
int IPv4AddressToNum(const char *asc, void *B) { return 4; }
int IPv6AddressToNum(const char *asc, void *B) { return 16; }
#define R (NA + NE)
static uint8_t m[L], o[L];
static int Plain(int pos)   /* encoded length of an uncompressed name */
{
    int n = RefNameLen(m, L, pos, LABELS);
    vp_assume(n > 0 && m[pos] < 0xC0 && (n < 3 || m[pos + n - 1] == 0) && (m[pos] == 0 || m[pos + 1 + m[pos]] < 0xC0));
    return n;
}
void vp_harness(void)
{
    int pos = 12, k, ol[R], st[R], rd[R], cn[R], len, nlen, at, last, n, x, rc;
    vp_bytes(m, L);
    vp_assume(U16AT(m, 4) == 1 && U16AT(m, 6) == NA && U16AT(m, 8) == 0 && U16AT(m, 10) == NE);
    pos += Plain(pos) + 4;
    for( k = 0; k < R; ++k )
    {
        st[k] = pos;
        ol[k] = Plain(pos);
        vp_assume(k >= NA || ol[k] >= 3);
        vp_assume(pos + ol[k] + 10 <= L && U16AT(m, pos + ol[k]) != 0 && U16AT(m, pos + ol[k] + 2) != 0);
        rd[k] = U16AT(m, pos + ol[k] + 8);
        cn[k] = k < NA && U16AT(m, pos + ol[k]) == 5 && U16AT(m, pos + ol[k] + 2) == 1;
        pos += ol[k] + 10 + rd[k];
        vp_assume(pos <= L);
    }
    vp_assume(pos == L);
    vp_assume(U16AT(m, 12 + Plain(12)) != 0 && U16AT(m, 12 + Plain(12) + 2) != 0);
    for( x = 0; x < L; ++x ) o[x] = m[x];
    nlen = L;
    for( k = 0; k < NA; ++k ) if( U16AT(o, st[k] + ol[k] + 2) == 1 ) nlen -= ol[k] - 2;
    x = vp_range(0, L - 1);
    rc = DNSCompress((char *)m, L);
    vp_assert(rc == nlen, "the new length is the old one less what the pointers save");
    if( x < (R > 0 ? st[0] : L) ) vp_assert(m[x] == o[x], "header and question are left alone");
    at = st[0]; last = 12;
    for( k = 0; k < R; ++k )
    {
        int rest = 10 + rd[k];
        if( k < NA && U16AT(o, st[k] + ol[k] + 2) == 1 )
        {
            vp_assert(m[at] == 0xC0 && m[at + 1] == last, "the owner points to the question's name or the latest CNAME target");
            n = 2;
        } else {
            n = ol[k];
            if( x < n ) vp_assert(m[at + x] == o[st[k] + x], "other owners are kept");
        }
        if( x < rest ) vp_assert(m[at + n + x] == o[st[k] + ol[k] + x], "type, class, lifetime and data are kept");
        if( cn[k] ) { last = at + n + 10; vp_witness("cname"); }
        at += n + rest;
    }
    vp_assert(at == nlen, "nothing else is in the message");
    vp_witness("end");
}
