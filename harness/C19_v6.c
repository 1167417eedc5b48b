/*VP {
 "srcs": ["utils.c"],
 "models": ["logs_stub.c"],
 "sed": [["utils.c", "\\bsscanf\\b", "vp_sscanf"], ["utils.h", "^", "int vp_sscanf(const char *s, const char *f, ...);\n"]],
 "defs": ["__NO_CTYPE"],
 "unwind": "42",
 "bounds": "every value of every group of an address of the variant's shape (eight groups, or shortened at the beginning, the end, inside)",
 "stubs": ["scanning one number is libc's: a number in the text is read as any 16-bit number"],
 "variants": {
  "full": {"defs": ["T=\"0000:1:222:33:4:5:6666:777\""]},
  "zero": {"defs": ["T=\"::\""]},
  "head": {"defs": ["T=\"0000:1::\""]},
  "tail": {"defs": ["T=\"::00:1111\""]},
  "mid": {"defs": ["T=\"0:11::222:3\""]},
  "one": {"defs": ["T=\"0::\""]},
  "last": {"defs": ["T=\"::0\""]},
  "six": {"defs": ["T=\"0000:1111:2222:3333:4444::5555\""]},
  "seven": {"defs": ["T=\"0:1:2:3:4:5:6::\""]},
  "svn2": {"defs": ["T=\"::0:1:2:3:4:5:6\""]},
  "in1": {"defs": ["T=\"0::1:2:3:4:5:6\""]},
  "in6": {"defs": ["T=\"0:1:2:3:4:5::6\""]},
  "blank": {"defs": ["T=\"  0::1\""]}
  }
} VP*/
#include "vp.h"
#include "utils.h"
sa_family_t AddressList_ConvertFromString(Address_Type *o, const char *s, int p) { return 0; }
#include "scan.h"
static const char K[] = T;
static struct { uint8_t before[4], b[16], after[4]; } D __attribute__((aligned(4)));
void vp_harness(void)
{
    unsigned w[8];
    int k, n = 0, at = -1, x = vp_range(0, 15), y = vp_range(0, 3);
    for( k = 0; k < 8; ++k ) { w[k] = 0; Val[k] = vp_u16(); }
    for( k = 0; K[k]; ++k )
    {
        if( Digit(K[k]) && Which(K[k]) == n ) ++n;
        if( K[k] == ':' && K[k + 1] == ':' ) at = n;
    }
    if( at < 0 ) at = n;
    for( k = 0; k < at; ++k ) w[k] = Val[k];
    for( k = at; k < n; ++k ) w[8 - n + k] = Val[k];
    for( k = 0; k < 4; ++k ) D.before[k] = D.after[k] = 0xA5;
    for( k = 0; k < 16; ++k ) D.b[k] = 0xA5;
    k = IPv6AddressToNum(K, D.b);
    vp_assert(k == 16, "an address is accepted");
    vp_assert(D.b[x] == ((x & 1) ? w[x / 2] & 255 : w[x / 2] >> 8), "and is the address written");
    vp_assert(D.before[y] == 0xA5 && D.after[y] == 0xA5, "nothing else is written");
    vp_witness("address");
}
