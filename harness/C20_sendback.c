/*VP {
 "srcs": ["iheader.c", "utils.c"],
 "models": ["logs_stub.c"],
 "unwind": 4,
 "unwindset": {"vp_bytes.*": "ML+1", "vp_harness.*": "ML+1", "Sent.*": "ML+1"},
 "bounds": "every message of at most ML bytes with every header, answered to UDP (IPv4, IPv6), TCP or an internal requester; every result of the system call",
 "stubs": ["send and sendto record what they are given and return any value the system allows"],
 "variants": {
  "ok": {"defs": ["ML=16"]}
  }
} VP*/
#include "vp.h"
#include "iheader.h"
#include "dnsgenerator.h"
int DnsGenerator_Init(DnsGenerator *g, char *b, int n, const char *c, int s, BOOL t) { return -1; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t) { return -1; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p) { return -1; }
char *DNSJumpOverName(char *n) { return n; }

static struct { IHeader h; uint8_t m[ML]; } c;
static uint8_t old[ML];
static IHeader oldh;
static int calls, sk, ret, len, isto, tl, fl;
static const uint8_t *p;
static const struct sockaddr *to;
static int Result(size_t n, const void *b, int s, int f) { ++calls; p = b; len = (int)n; sk = s; fl = f; ret = vp_range(-1, (int)n); return ret; }
ssize_t send(int s, const void *b, size_t n, int f) { isto = 0; return Result(n, b, s, f); }
ssize_t sendto(int s, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t al) { isto = 1; to = a; tl = al; return Result(n, b, s, f); }

void vp_harness(void)
{
    int n = vp_range(12, ML), k, rc, refused = vp_bool();
    static const int fam[3] = {AF_UNSPEC, AF_INET, AF_INET6};
    int f = vp_range(0, 2);
    vp_bytes(c.m, ML);
    for( k = 0; k < ML; ++k ) old[k] = c.m[k];
    c.h.BackAddress.family = f == 0 ? AF_UNSPEC : f == 1 ? AF_INET : AF_INET6;
    c.h.SendBackSocket = vp_range(0, 1000); c.h.ReturnHeader = vp_bool(); c.h.EntityLength = n;
    c.h.Type = vp_u16(); c.h.Domain[0] = vp_u8(); c.h.Domain[1] = 0; c.h.Agent[0] = 'x';
    c.h.BackAddress.Addr.Addr4.sin_port = vp_u16();
    oldh = c.h;
    rc = refused ? MsgContext_SendBackRefusedMessage((MsgContext *)&c) : MsgContext_SendBack((MsgContext *)&c);
    if( refused ) { old[2] |= 0x80; old[3] = (old[3] & 0x70) | 0x80; vp_witness("refused"); }
    vp_assert(calls == 1 && sk == oldh.SendBackSocket, "sent once, on the socket the query came from");
    for( k = 0; k < ML; ++k ) vp_assert(c.m[k] == old[k], "the message is not changed (a refusal only becomes an empty answer)");
    if( f == 0 )
    {
        vp_assert(!isto && len == n + 2, "TCP: length prefix and message");
        vp_assert(p[0] * 256 + p[1] == n, "TCP: the prefix is the length");
        p += 2; len -= 2;
        vp_witness("tcp");
    } else {
        vp_assert(isto && to == (const struct sockaddr *)&c.h.BackAddress.Addr && tl == (f == 1 ? sizeof(struct sockaddr_in) : sizeof(struct sockaddr_in6)), "UDP: to the address the query came from");
        vp_assert(((const struct sockaddr_in *)to)->sin_port == oldh.BackAddress.Addr.Addr4.sin_port, "UDP: port");
        if( oldh.ReturnHeader )
        {
            const IHeader *hh = (const IHeader *)p;
            vp_assert(len == (int)sizeof(IHeader) + n, "internal requesters get the header too");
            vp_assert(hh->EntityLength == n && hh->Type == oldh.Type && hh->Domain[0] == oldh.Domain[0], "internal: header");
            p += sizeof(IHeader); len -= sizeof(IHeader);
            vp_witness("header");
        }
    }
    vp_assert(len == n && p == c.m, "exactly the message");
    vp_assert((fl & MSG_NOSIGNAL) != 0, "a vanished client cannot kill the process");
    vp_assert((rc == 0) == (ret == n + (f == 0 ? 2 : oldh.ReturnHeader ? (int)sizeof(IHeader) : 0)), "success is reported iff everything was sent");
}
