/*VP {
 "srcs": ["ipchunk.c", "bst.c"],
 "models": ["logs_stub.c", "mem.c"],
 "rename": {"memcpy@bst.c": "vp_copy_el", "atoi@ipchunk.c": "vp_atoi", "memcmp@ipchunk.c": "vp_memcmp"},
 "cbmc": ["--max-field-sensitivity-array-size","200"],
 "unwind": 5,
 "unwindset": {"vp_harness.*": 18, "vp_bytes.*": 50, "Inside.*": 17, "Bst_.*": "N+1", "vp_memcpy.*": 24, "IpChunk_Add.*": 6, "IpChunk_Find.*": "BITS+1", "IpAddr_Parse.*": 3, "vp_atoi.*": 5, "strchr.*": 6, "strlen.*": 8, "SB_Add.*": 18, "vp_memcmp.*": 5},
 "bounds": "every set of N entries of the variant's kinds (s: a single address, c: a range of any width, w: a range of the width given by W; lower case for IPv4, upper case for IPv6), with any addresses (nested, overlapping and equal ones included), in any order of the variant; every address looked up",
 "assumptions": ["the addresses' text is decided under C19; here the parsing yields any bytes", "a range is at least /0 and its width is written in digits"],
 "stubs": ["room for elements and texts: fresh, non-overlapping, as decided for the real buffer under C24"],
 "variants": {
  "ss4": {"defs": ["N=2", "KINDS=\"ss\"", "BITS=32", "W={0,0,0}", "SIX=0"]},
  "cc4": {"defs": ["N=2", "KINDS=\"cc\"", "BITS=32", "W={0,0,0}", "SIX=0"]},
  "n4": {"defs": ["N=3", "KINDS=\"www\"", "BITS=32", "W={16,8,24}", "SIX=0"]},
  "o4": {"defs": ["N=3", "KINDS=\"www\"", "BITS=32", "W={9,20,9}", "SIX=0"]},
  "p4": {"defs": ["N=3", "KINDS=\"wsw\"", "BITS=32", "W={5,0,31}", "SIX=0"]},
  "mix": {"defs": ["N=3", "KINDS=\"wSs\"", "BITS=128", "W={12,0,0}", "SIX=1"]},
  "mix4": {"defs": ["N=3", "KINDS=\"wSs\"", "BITS=32", "W={12,0,0}", "SIX=0"]},
  "v4": {"defs": ["N=3", "KINDS=\"WsW\"", "BITS=32", "W={0,0,127}", "SIX=0"]},
  "y6": {"defs": ["N=2", "KINDS=\"WW\"", "BITS=128", "W={32,96,0}", "SIX=1"]},
  "w6": {"defs": ["N=2", "KINDS=\"WW\"", "BITS=128", "W={48,64,0}", "SIX=1"], "tiers": ["thorough"]},
  "x6": {"defs": ["N=2", "KINDS=\"WW\"", "BITS=128", "W={127,33,0}", "SIX=1"], "tiers": ["thorough"]}
  }
} VP*/
#include "vp.h"
#include "ipchunk.h"

/* memcpy of one element */
void *vp_copy_el(void *d, const void *s, size_t n) { vp_assert(n == sizeof(IpElement), "whole elements are copied"); *(IpElement *)d = *(const IpElement *)s; return d; }
static const char K[] = KINDS;
static const int Wd[3] = W;
static uint8_t Ad[N][16];
static int Width[N], Is6[N], Now;
typedef struct { Bst_NodeHead h; IpElement e; } Room;
static Room R0, R1, R2, R3;
static int Rooms, Texts, Dats;
static char Tx[N][8], Dt[N][16];
int vp_atoi(const char *s) { int v = 0; while( *s >= '0' && *s <= '9' ) v = v * 10 + *s++ - '0'; return v; }
int vp_memcmp(const void *a, const void *b, size_t n)
{
    size_t k;
    for( k = 0; k < n; ++k ) if( ((const uint8_t *)a)[k] != ((const uint8_t *)b)[k] ) return ((const uint8_t *)a)[k] - ((const uint8_t *)b)[k];
    return 0;
}
int IPv4AddressToNum(const char *s, void *b) { int k; for( k = 0; k < 4; ++k ) ((uint8_t *)b)[k] = Ad[Now][k]; return 4; }
int IPv6AddressToNum(const char *s, void *b) { int k; for( k = 0; k < 16; ++k ) ((uint8_t *)b)[k] = Ad[Now][k]; return 16; }
static IpChunk ic;
static void *SB_Add(StableBuffer *s, const void *Data, int Length, BOOL Align)
{
    int k;
    if( s == &ic.Extra ) { vp_assert(Texts < N && Length <= 8, "the text is kept"); for( k = 0; k < Length; ++k ) Tx[Texts][k] = ((const char *)Data)[k]; return Tx[Texts++]; }
    if( s == &ic.Datas ) { vp_assert(Dats < N && Length <= 16, "the data is kept"); for( k = 0; k < Length; ++k ) Dt[Dats][k] = ((const char *)Data)[k]; return Dt[Dats++]; }
    vp_assert(Length <= (int)sizeof(Room), "room request fits one element");
    switch( Rooms++ ) { case 0: return &R0; case 1: return &R1; case 2: return &R2; default: return &R3; }
}
static void SB_Clear(StableBuffer *s) { }
int StableBuffer_Init(StableBuffer *s) { s->Add = SB_Add; s->Clear = SB_Clear; s->Free = SB_Clear; return 0; }

static int Inside(int n, const uint8_t *ip, int six)
{
    int k, w = Width[n];
    if( Is6[n] != six ) return 0;
    for( k = 0; k < (six ? 16 : 4); ++k, w -= 8 )
    {
        unsigned m = w >= 8 ? 255 : w <= 0 ? 0 : (255 << (8 - w)) & 255;
        if( (Ad[n][k] & m) != (ip[k] & m) ) return 0;
    }
    return 1;
}
void vp_harness(void)
{
    static uint8_t ip[16];
    int six = SIX, k, j, any = 0, best = -1, ty = 0, r, in[N];
    const char *d = NULL;
    vp_bytes(Ad, sizeof(Ad));
    vp_bytes(ip, 16);
    vp_assert(IpChunk_Init(&ic) == 0, "an empty list");
    for( k = 0; k < N; ++k )
    {
        char t[8]; int l = 0, w;
        uint8_t dat[16];
        Is6[k] = K[k] < 'a';
        t[l++] = Is6[k] ? ':' : '.';
        w = Is6[k] ? 128 : 32;
        if( K[k] == 'c' || K[k] == 'C' )
        {
            int a = vp_range(0, 9), b = vp_range(0, 9);
            t[l++] = '/'; t[l++] = '0' + a; t[l++] = '0' + b;
            w = a * 10 + b;
            if( !Is6[k] && w > 32 ) w = 32;
        } else if( K[k] == 'W' || K[k] == 'w' ) {
            w = Wd[k];
            t[l++] = '/';
            if( w > 99 ) t[l++] = '1';
            if( w > 9 ) t[l++] = '0' + w / 10 % 10;
            t[l++] = '0' + w % 10;
        }
        t[l] = 0;
        Width[k] = w;
        for( j = 0; j < 16; ++j ) dat[j] = 0;
        dat[0] = k; dat[Is6[k] ? 15 : 3] = 40 + k;
        Now = k;
        vp_assert(IpChunk_Add(&ic, t, 10 + k, dat, Is6[k] ? 16 : 4) == 0, "a well-formed entry is taken");
    }
    for( k = 0; k < N; ++k )
    {
        in[k] = Inside(k, ip, six);
        if( in[k] ) { any = 1; if( Width[k] > best ) best = Width[k]; }
    }
    r = IpChunk_Find(&ic, ip, six ? 16 : 4, &ty, &d);
    vp_assert(!!r == any, "an address is covered iff it equals an entry or lies in an entry's range");
    if( r )
    {
        vp_assert(ty >= 10 && ty < 10 + N, "the entry's own kind");
        k = ty - 10;
        vp_assert(in[k] && Width[k] == best, "the narrowest entry that covers it decides");
        vp_assert(d[0] == k && d[six ? 15 : 3] == 40 + k, "with its own data");
        vp_witness("covered");
    } else vp_witness("not covered");
    vp_assert(IpChunk_Find(&ic, ip, 5, &ty, &d) == FALSE, "data of another size is no address");
}
