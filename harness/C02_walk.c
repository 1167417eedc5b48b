/*VP {
 "srcs": ["dnsparser.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy": "vp_memcpy"},
 "unwind": "R+2",
 "unwindset": {"vp_.*": "L+2", "vp_memcpy.*": 8, "DNSGetHostName": "LABELS+2", "RefName.*": "LABELS+2"},
 "bounds": "every message of exactly L bytes (all byte values) whose header announces at most R records; owner names of at most LABELS labels (with three records: owners of the answers at most two bytes, i.e. root or a pointer)",
 "stubs": ["logging is empty"],
 "variants": {
 "any2": {"defs": ["L=30","R=2","LABELS=1"], "weight": 2},
 "q11": {"defs": ["L=40","R=2","LABELS=2","COUNTS(q,a,n,r)=((q)==1&&(a)==1&&(n)==0&&(r)==0)"], "weight": 2},
 "q110": {"defs": ["L=48","R=3","LABELS=1","COUNTS(q,a,n,r)=((q)==1&&(a)==1&&(n)==1&&(r)==0)"], "weight": 2},
 "q011": {"defs": ["L=44","R=3","LABELS=1","COUNTS(q,a,n,r)=((q)==1&&(a)==0&&(n)==1&&(r)==1)"], "weight": 2},
 "q201": {"defs": ["L=36","R=3","LABELS=1","COUNTS(q,a,n,r)=((q)==2&&(a)==0&&(n)==0&&(r)==1)"], "weight": 2}
 }
} VP*/
#include "vp.h"
#include "dnsparser.h"

static uint8_t m[L];

/* encoded length of the name at pos, or -1 */
static int RefName(int pos)
{
    int p = pos, k;
    for( k = 0; k <= LABELS; ++k )
    {
        if( p >= L ) return -1;
        if( m[p] == 0 ) return p + 1 - pos;
        vp_assume(k < LABELS || m[p] >= 0xC0);
        if( m[p] >= 0xC0 ) return p + 2 > L ? -1 : p + 2 - pos;
        if( p + 1 + m[p] >= L ) return -1;
        p += 1 + m[p];
    }
    return -1;
}
#define U16(p) (m[p] * 256 + m[(p) + 1])

void vp_harness(void)
{
    DnsSimpleParser p;
    DnsSimpleParserIterator it;
    int qd, an, ns, ar, k, pos = 12, alive = 1;
    char *r;
    vp_bytes(m, L);
    qd = U16(4); an = U16(6); ns = U16(8); ar = U16(10);
#ifdef COUNTS
    vp_assume(COUNTS(qd, an, ns, ar));
#endif
    vp_assume(qd + an + ns + ar <= R);
    vp_assert(DnsSimpleParser_Init(&p, (char *)m, L, FALSE) == 0, "a message with a whole header is accepted");
    vp_assert(p.QueryIdentifier(&p) == U16(0), "identifier");
    vp_assert(DnsSimpleParserIterator_Init(&it, &p) == 0, "iterator");
    for( k = 1; k <= R + 1 && alive; ++k )
    {
        int n, type, klass, purpose, rd = 0;
        n = k > qd + an + ns + ar ? -1 : RefName(pos);
        r = it.Next(&it);
        if( k > qd + an + ns + ar || pos > L ) { vp_assert(r == NULL, "no record beyond the announced ones"); break; }
        purpose = k <= qd ? DNS_RECORD_PURPOSE_QUESTION : k <= qd + an ? DNS_RECORD_PURPOSE_ANSWER :
                  k <= qd + an + ns ? DNS_RECORD_PURPOSE_NAME_SERVER : DNS_RECORD_PURPOSE_ADDITIONAL;
        if( n < 0 || pos + n + (k <= qd ? 4 : 10) > L ) { vp_assert(r == NULL, "a record not inside the message ends the walk"); break; }
        type = U16(pos + n); klass = U16(pos + n + 2);
        if( type == 0 || klass == 0 ) { vp_assert(r == NULL, "type and class 0 end the walk"); break; }
        if( k > qd )
        {
            rd = U16(pos + n + 8);
            if( pos + n + 10 + rd > L ) { vp_assert(r == NULL, "data not inside the message ends the walk"); break; }
        }
        vp_assert(r == (char *)m + pos, "record position");
        vp_assert(it.Type == type && it.Klass == klass && it.Purpose == purpose, "type, class and section");
        if( k > qd )
        {
            vp_assert(it.DataLength == rd, "data length");
            vp_assert(it.RowData(&it) == (char *)m + pos + n + 10, "data position");
            vp_assert(it.GetTTL(&it) == ((uint32_t)U16(pos + n + 4) << 16 | U16(pos + n + 6)), "ttl");
            if( k == R ) vp_witness("last record has data");
        }
        vp_assume(R < 3 || n <= 2 || k <= qd);
        pos += n + (k <= qd ? 4 : 10 + rd);
    }
    vp_witness("walked");
}
