/*VP {
 "srcs": ["addresslist.c", "utils.c"],
 "models": ["logs_stub.c"],
 "rename": {"inet_addr@addresslist.c": "vp_inet_addr"},
 "sed": [["utils.c", "\\bsscanf\\b", "vp_sscanf"], ["addresslist.c", "\\bsscanf\\b", "vp_sscanf"], ["utils.h", "^", "int vp_sscanf(const char *s, const char *f, ...);\n"]],
 "defs": ["__NO_CTYPE"],
 "unwind": "50",
 "bounds": "every value of every number of an address of the variant's shape, with a port, without one, or with one that is no number; every default port; what is not an address",
 "stubs": ["scanning one number is libc's: a number in the text is read as any number", "inet_addr modelled for four decimal numbers"],
 "variants": {
  "v4": {"defs": ["T=\"0.11.222.3\""]},
  "v4p": {"defs": ["T=\"000.1.2.33:4444\""]},
  "v4n": {"defs": ["T=\"0.1.2.3:x\""]},
  "v6": {"defs": ["T=\"[0::111]\""]},
  "v6p": {"defs": ["T=\"[0000:1::2:3]:44444\""]},
  "v6n": {"defs": ["T=\"[::0]:\""]},
  "v6l": {"defs": ["T=\"[0000:1111:2222:3333:4444:5555:6666:7777]:8888\""]},
  "no": {"defs": ["T=\"0.1.2\""]},
  "no6": {"defs": ["T=\"[::0\""]}
  }
} VP*/
#include "vp.h"
#include "addresslist.h"
#include "utils.h"
#include "scan.h"
in_addr_t vp_inet_addr(const char *s)
{
    union { uint8_t b[4]; uint32_t v; } u; int k;
    for( k = 0; k < 4; ++k )
    {
        if( !Digit(*s) ) return 0xffffffff;
        u.b[k] = Val[Which(*s)];
        while( Digit(*s) ) ++s;
        if( *s != (k < 3 ? '.' : 0) ) return 0xffffffff;
        ++s;
    }
    return u.v;
}
int Array_Init(Array *a, int l, int n, BOOL g, void *f) { return 0; }
int Array_PushBack(Array *a, const void *d, void *b) { return 0; }
void *Array_GetBySubscript(const Array *a, int s) { return NULL; }
static const char K[] = T;
void vp_harness(void)
{
    unsigned w[8], port = 0; int six = K[0] == '[', k, n = 0, at = -1, closed = 0, dots = 0, hasport = 0, def = vp_range(0, 65535), x, f;
    static Address_Type a;
    for( k = 0; k < 8; ++k ) w[k] = 0;
    for( k = 0; K[k]; ++k )
    {
        char c = K[k];
        if( six && !closed && Digit(c) && Which(c) == n ) ++n;
        if( c == ':' && six && !closed && K[k + 1] == ':' ) at = n;
        if( c == ']' ) closed = 1;
        if( c == '.' ) ++dots;
        if( c == ':' && (!six || closed) && Digit(K[k + 1]) ) { hasport = 1; port = Which(K[k + 1]); }
    }
    for( k = 0; k < 9; ++k ) { Val[k] = vp_u16(); if( !six && k < 4 ) vp_assume(Val[k] <= 255); }
    port = hasport ? Val[port] : def;
    if( at < 0 ) at = n;
    for( k = 0; k < at; ++k ) w[k] = Val[k];
    for( k = at; k < n; ++k ) w[8 - n + k] = Val[k];
    f = AddressList_ConvertFromString(&a, K, def);
    if( six ? !closed : dots != 3 )
    {
        vp_assert(f == AF_UNSPEC, "what is not an address is refused");
    } else if( six )
    {
        vp_assert(f == AF_INET6 && a.family == AF_INET6 && a.Addr.Addr6.sin6_family == AF_INET6, "an IPv6 address");
        vp_assert(ntohs(a.Addr.Addr6.sin6_port) == port, "the port written, or the default");
        x = vp_range(0, 15);
        vp_assert(((uint8_t *)&a.Addr.Addr6.sin6_addr)[x] == ((x & 1) ? w[x / 2] & 255 : w[x / 2] >> 8), "the address written");
    } else {
        vp_assert(f == AF_INET && a.family == AF_INET && a.Addr.Addr4.sin_family == AF_INET, "an IPv4 address");
        vp_assert(ntohs(a.Addr.Addr4.sin_port) == port, "the port written, or the default");
        x = vp_range(0, 3);
        vp_assert(((uint8_t *)&a.Addr.Addr4.sin_addr)[x] == Val[x], "the address written");
    }
    vp_witness("done");
}
