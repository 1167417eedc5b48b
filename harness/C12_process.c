/*VP {
 "srcs": ["ipmisc.c"],
 "models": ["logs_stub.c", "mem.c", "rw.c"],
 "rename": {"pthread_rwlock_init@ipmisc.c": "vp_rw_init", "pthread_rwlock_destroy@ipmisc.c": "vp_rw_destroy", "pthread_rwlock_rdlock@ipmisc.c": "vp_rw_rdlock", "pthread_rwlock_wrlock@ipmisc.c": "vp_rw_wrlock", "pthread_rwlock_unlock@ipmisc.c": "vp_rw_unlock", "malloc@ipmisc.c": "vp_malloc1", "atexit@ipmisc.c": "vp_atexit", "memcpy@ipmisc.c": "vp_memcpy"},
 "unwind": 8,
 "unwindset": {"vp_harness.*": 22, "vp_bytes.*": 70, "vp_memcpy.*": 17, "IPMisc_Process.*": 6, "Rule.*": 18, "IpChunk_Find.*": 18},
 "bounds": "every response with up to 3 answers and an authority record, of any types, classes and data of 0..17 bytes; every response code; every rule for the addresses (nothing, blocked, replaced by any address); the options on or off",
 "stubs": ["the records of the message are those decided under C02", "the list of addresses is decided in C12_find: here it answers anything"],
 "variants": { "all": {"defs": ["NR=4"]} }
} VP*/
#include "vp.h"
#include "ipmisc.h"
#include "readline.h"
#include "utils.h"
static IPMisc TheMisc;
void *vp_malloc1(size_t n) { return &TheMisc; }
int vp_atexit(void (*f)(void)) { return 0; }
extern int vp_rw_held;
static int Neg, HasB, Rc, An, Pos, Ok;
static struct { uint16_t ty, cl; int len; int act; } R[NR];
static char D[NR][17], Old[NR][17], Sub[NR][16];
static StringList LB;
static struct { IHeader h; char m[32]; } c;
StringList *ConfigGetStringList(ConfigFileInfo *c, const char *k) { return k[0] == 'B' && HasB ? &LB : NULL; }
BOOL ConfigGetBoolean(ConfigFileInfo *c, const char *k) { return k[0] == 'B' ? Neg : 0; }
static const char *NextB(StringListIterator *i) { return NULL; }
int StringListIterator_Init(StringListIterator *i, StringList *l) { i->Next = NextB; return 0; }
int ExpandPathTo(char *b, int n, const char *p) { return -1; }
ReadLineStatus ReadLine(FILE *fp, char *b, int n) { return READ_FAILED_OR_END; }
ReadLineStatus ReadLine_GoToNextLine(FILE *fp) { return READ_DONE; }
int IPv6AddressToNum(const char *s, void *b) { return 16; }
int IPv4AddressToNum(const char *s, void *b) { return 4; }
static ResponseCode Code(const DnsSimpleParser *p) { return Rc; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t)
{
    vp_assert(r == c.m && l == 20 && !t, "the message received is looked at, with its length");
    p->_Flags.ResponseCode = Code;
    p->RawDns = r; p->RawDnsLength = l;
    return Ok ? 0 : -1;
}
static char *Next(DnsSimpleParserIterator *i)
{
    ++Pos;
    if( Pos == 0 ) { i->Purpose = DNS_RECORD_PURPOSE_QUESTION; i->Type = 1; i->Klass = 1; i->DataLength = 0; return c.m + 12; }
    if( Pos > NR ) { i->Purpose = DNS_RECORD_PURPOSE_UNKNOWN; return NULL; }
    i->Purpose = Pos <= An ? DNS_RECORD_PURPOSE_ANSWER : DNS_RECORD_PURPOSE_NAME_SERVER;
    i->Type = R[Pos - 1].ty; i->Klass = R[Pos - 1].cl; i->DataLength = R[Pos - 1].len;
    return c.m + 12;
}
static void Goto(DnsSimpleParserIterator *i) { Pos = 0; }
static char *Row(DnsSimpleParserIterator *i) { return D[Pos - 1]; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p) { Pos = -1; i->Parser = p; i->Next = Next; i->GotoAnswers = Goto; i->RowData = Row; return 0; }
void IpChunk_Free(IpChunk *ic) { }
int IpChunk_Init(IpChunk *ic) { return 0; }
int IpChunk_Add(IpChunk *ic, const char *Ip, int Type, const void *Data, uint32_t n) { return 0; }
static int Addr(int k) { return R[k].cl == 1 && ((R[k].ty == 1 && R[k].len == 4) || (R[k].ty == 28 && R[k].len == 16)); }
BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int n, int *Type, const char **Data)
{
    int k;
    vp_assert(ic == &TheMisc.c, "asked of the list");
    vp_assert(vp_rw_held != 0, "the list is locked while it is used");
    for( k = 0; k < NR; ++k ) if( (char *)Ip == D[k] ) break;
    vp_assert(k < An && Addr(k) && n == R[k].len, "only whole addresses of IN answers are looked up");
    if( R[k].act == 0 ) return FALSE;
    if( Type != NULL ) *Type = R[k].act == 1 ? IP_MISC_TYPE_BLOCK : IP_MISC_TYPE_SUBSTITUTE;
    if( Data != NULL ) *Data = Sub[k];
    return TRUE;
}
void vp_harness(void)
{
    int k, rc, want = IP_MISC_NOTHING, stop, x = vp_range(0, 16), r = vp_range(0, NR - 1);
    Neg = vp_bool(); HasB = vp_bool(); Rc = vp_range(0, 15); An = vp_range(0, 3); Ok = vp_bool();
    vp_bytes(D, sizeof(D)); vp_bytes(Sub, sizeof(Sub));
    memcpy(Old, D, sizeof(D));
    for( k = 0; k < NR; ++k ) { R[k].ty = vp_u16(); R[k].cl = vp_u16(); R[k].len = vp_range(0, 17); R[k].act = vp_range(0, 2); }
    c.h.EntityLength = 20;
    stop = NR;
    if( !Ok || (!HasB && !Neg) ) stop = 0;
    else if( Neg && Rc != 0 ) { want = IP_MISC_NEGATIVE_RESULT; stop = 0; }
    else for( k = 0; k < NR; ++k ) if( k < An && Addr(k) && R[k].act == 1 && stop == NR ) { want = IP_MISC_FILTERED_IP; stop = k; }
    vp_assert(IpMiscMapping_Init((ConfigFileInfo *)D) == 0, "configured");
    rc = IPMiscMapping_Process((MsgContext *)&c);
    vp_assert(vp_rw_held == 0, "released afterwards");
    vp_assert(rc == want, "discarded iff a negative answer or a blocked address is to be discarded");
    if( want == IP_MISC_NOTHING )
    {
        if( r < An && r < stop && Addr(r) && R[r].act == 2 && x < R[r].len )
        {
            vp_assert(D[r][x] == Sub[r][x], "an address to be replaced is replaced");
            vp_witness("replaced");
        } else vp_assert(D[r][x] == Old[r][x], "everything else is kept");
    } else if( want == IP_MISC_FILTERED_IP ) vp_witness("blocked");
    else vp_witness("negative");
}
