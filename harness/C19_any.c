/*VP {
 "srcs": ["utils.c"],
 "models": ["logs_stub.c", "sscanf_model.c"],
 "sed": [["utils.c", "\\bsscanf\\b", "vp_sscanf"], ["utils.h", "^", "int vp_sscanf(const char *s, const char *f, ...);\n"]],
 "defs": ["__NO_CTYPE"],
 "unwind": "NL+2",
 "bounds": "every text of up to NL characters of the alphabet (colon, hexadecimal digit, another letter, blank, dot), among them: too many groups, several shortenings, no digits",
 "stubs": ["scanning of numbers modelled"],
 "variants": {
  "any": {"defs": ["NL=8", "T=\"\""]},
  "many": {"defs": ["NL=23", "T=\"1:2:3:4:5:6:7:8:9:????\""]},
  "manyt": {"defs": ["NL=23", "T=\"??::1:2:3:4:5:6:7:8:9:?\""]}
  }
} VP*/
#include "vp.h"
#include "utils.h"
sa_family_t AddressList_ConvertFromString(Address_Type *o, const char *s, int p) { return 0; }
static const char K[NL + 1] = T;
static char S[NL + 1];
static struct { uint8_t before[4], b[16], after[4]; } D __attribute__((aligned(4)));
void vp_harness(void)
{
    int k, y = vp_range(0, 3), four = vp_bool(), digits = 0, colons = 0, bad = 0;
    for( k = 0; k < NL; ++k )
    {
        if( K[k] != 0 && K[k] != '?' ) S[k] = K[k];
        else
        {
            char c = vp_range(0, 127);
            vp_assume(c == ':' || c == '1' || c == 'a' || c == 'g' || c == '.' || c == ' ' || c == 0);
            S[k] = c;
        }
    }
    S[NL] = 0;
    for( k = 0; k < 4; ++k ) D.before[k] = D.after[k] = 0xA5;
    for( k = 0; S[k]; ++k ) { if( S[k] == '1' || S[k] == 'a' ) digits = 1; if( S[k] == ':' ) ++colons; if( S[k] == 'g' ) bad = 1; }
    if( four )
    {
        k = IPv4AddressToNum(S, D.b);
        vp_assert(k != 4 || digits, "without digits there is no address");
    } else {
        k = IPv6AddressToNum(S, D.b);
        vp_assert(k == 16 || k == 0, "accepted or not");
        vp_assert(k == 0 || colons >= 2, "without colons there is no address");
    }
    vp_assert(D.before[y] == 0xA5 && D.after[y] == 0xA5, "nothing beyond the address is written");
    if( !four && k == 0 ) vp_witness("refused");
}
