/* The environment of dnscache.c: scripted messages, recorded answers, contract for the node
 * table, and the reference of what has to be cached. */
#include "vp.h"
#include <stdarg.h>
#include <time.h>
#include "dnscache.h"
#include "dnsgenerator.h"
#include "cacheht.h"
#include "cachettlcrtl.h"
#include "timedtask.h"
#include "domainstatistic.h"

#define DATA 16

/* ---- the cache memory (its size is not what matters here) ---- */
static struct { uint32_t h[4]; CacheHT ht; char c[128 - 16 - sizeof(CacheHT)]; uint8_t d[RECS * DATA]; } Map;
static CacheTtlCtrl Ctl;
void *vp_map(size_t n) { if( CTRL && n == sizeof(Ctl) ) return &Ctl; vp_assert(n == 102400, "as much memory as configured"); return &Map; }
int KeyOf(const char *Key, const Cht_Node *n)
{
    const char *t = (char *)&Map + n->Offset + 1;
    int k;
    for( k = 0; k < NL + 5 + TXT; ++k ) if( Key[k] != t[k] ) return 0;
    return Key[k - 1] == 0;
}
static time_t Clock = 1000;
time_t vp_time(time_t *t) { return Clock; }
int vp_atexit(void (*f)(void)) { return 0; }
char *vp_strncpy(char *d, const char *s, size_t n) { return d; }
void *vp_set(void *p, int v, size_t n)
{
    if( p == (void *)&Map || p == (void *)Map.c ) return p;
    /* padding is never looked at */
    vp_assert(n < 16 && (char *)p + n <= (char *)&Map + sizeof(Map), "padding only");
    return p;
}
int vp_memcmp(const void *a, const void *b, size_t n)
{
    size_t k;
    for( k = 0; k < n; ++k ) if( ((const uint8_t *)a)[k] != ((const uint8_t *)b)[k] ) return ((const uint8_t *)a)[k] < ((const uint8_t *)b)[k] ? -1 : 1;
    return 0;
}
/* %s and %X only */
int vp_snprintf(char *o, size_t n, const char *f, ...)
{
    va_list l; size_t at = 0; const char *s; unsigned v;
    va_start(l, f);
    for( ; *f; ++f )
    {
        if( *f != '%' ) { if( at + 1 < n ) o[at] = *f; ++at; continue; }
        ++f;
        if( *f == 's' ) { for( s = va_arg(l, const char *); *s; ++s ) { if( at + 1 < n ) o[at] = *s; ++at; } }
        else
        {
            v = va_arg(l, unsigned);
#if TXT
            if( v > 15 ) { if( at + 1 < n ) o[at] = v >> 4 < 10 ? '0' + (v >> 4) : 'A' + (v >> 4) - 10; ++at; v &= 15; }
#else
            vp_assert(v < 16, "model bound: one digit");
#endif
            if( at + 1 < n ) o[at] = v < 10 ? '0' + v : 'A' + v - 10; ++at;
        }
    }
    va_end(l);
    if( n > 0 ) o[at < n ? at : n - 1] = 0;
    return (int)at;
}

/* ---- configuration, locks, tasks ---- */
static int Ignore, Parallel;
int32_t ConfigGetInt32(ConfigFileInfo *i, const char *n) { return n[0] == 'C' ? 102400 : n[0] == 'O' ? -1 : 1; }
BOOL ConfigGetBoolean(ConfigFileInfo *i, const char *n) { return n[0] == 'U' || n[0] == 'M' || (n[0] == 'I' && Ignore) || (n[0] == 'C' && Parallel); }
const char *ConfigGetRawString(ConfigFileInfo *i, const char *n) { return ""; }
static StringList Rules;
StringList *ConfigGetStringList(ConfigFileInfo *i, const char *n) { return CTRL ? &Rules : NULL; }
static int Held; /* 1 reading, 2 writing */
int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *a) { return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t *l) { vp_assert(Held == 0, "locked once"); Held = 1; return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t *l) { vp_assert(Held == 0, "locked once"); Held = 2; return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t *l) { vp_assert(Held != 0, "unlocked once"); Held = 0; return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t *l) { return 0; }
static TaskFunc Task;
int TimedTask_Add(BOOL p, BOOL a, int ms, TaskFunc f, void *x, void *y, BOOL i) { Task = f; return 0; }
BOOL FileIsReadable(const char *f) { return FALSE; }
int DomainStatistic_Add(IHeader *h, StatisticType t) { return 0; }

/* ---- cache control ---- */
int CacheTtlCrtl_Init(CacheTtlCtrl *c) { return 0; }
void CacheTtlCrtl_Free(CacheTtlCtrl *c) { }
int CacheTtlCrtl_Add(CacheTtlCtrl *c, const char *D, int s, uint32_t co, uint32_t in, int inf) { return 0; }
int CacheTtlCrtl_Add_From_StringList(CacheTtlCtrl *c, StringList *s) { return 0; }
static CtrlContent ByQuestion, ByName;
static int HasQuestion, HasName;
static char QName[3];
static int SameText(const char *a, const char *b)
{
    if( a[0] != b[0] ) return 0;
    if( a[0] == 0 ) return 1;
    if( a[1] != b[1] ) return 0;
    if( a[1] == 0 ) return 1;
    return a[2] == b[2] && a[2] == 0;
}
const CtrlContent *CacheTtlCrtl_Get(CacheTtlCtrl *c, const char *Domain)
{
    if( !CTRL ) return NULL;
    if( SameText(Domain, QName) ) return HasQuestion ? &ByQuestion : NULL;
    return HasName ? &ByName : NULL;
}

/* ---- messages ---- */
typedef struct { int purpose, type, klass, dl; uint32_t ttl; char name[3]; uint8_t data[4]; } R;
static R Rec[RECS + 1];
static int First, Last, At;
static int Cacheable(int t) { return t == 1 || t == 28 || t == 65 || t == 16 || t == 5 || t == 12 || t == 2 || t == 15; }
/* names are NL characters */
static void AnyName(char *n) { n[0] = vp_u8(); vp_assume(n[0] != 0); n[NL] = 0; if( NL == 2 ) { n[1] = vp_u8(); vp_assume(n[1] != 0); } }
static const char Dl[] = DLS;
/* TYS: the types of the records and of the query, '?' any of a few */
static const char Ty[] = TYS;
static int AnyType(int k)
{
    int t;
    if( Ty[k] == 'a' ) return 1;
    if( Ty[k] == 'c' ) return 5;
    if( Ty[k] == 't' ) return 16;
    t = vp_range(0, 4);
    return t == 0 ? 1 : t == 1 ? 5 : t == 2 ? 6 : t == 3 ? 12 : 15;
}
static void AnyRecord(R *r)
{
    r->type = AnyType(r - Rec);
    if( Ty[r - Rec] == '?' ) { r->purpose = vp_range(DNS_RECORD_PURPOSE_QUESTION, DNS_RECORD_PURPOSE_ADDITIONAL); r->klass = vp_range(1, 2); r->ttl = vp_range(0, 20); }
    else { r->purpose = DNS_RECORD_PURPOSE_ANSWER; r->klass = 1; r->ttl = vp_range(1, 20); }
    AnyName(r->name);
    r->dl = Dl[r - Rec] - '0';
    r->data[0] = vp_u8(); r->data[1] = vp_u8(); r->data[2] = vp_u8();
    /* the data of a CNAME is a name of NL characters */
    vp_assume(r->type != 5 || (r->dl == NL + 1 && r->data[0] != 0 && r->data[NL] == 0 && (NL == 1 || r->data[1] != 0)));
}
static char Pos;
static char *It_Next(DnsSimpleParserIterator *i)
{
    if( At >= Last ) return NULL;
    i->Purpose = Rec[At].purpose; i->Type = Rec[At].type; i->Klass = Rec[At].klass; i->DataLength = Rec[At].dl;
    ++At;
    return &Pos;
}
static int It_GetName(DnsSimpleParserIterator *i, char *b, int n)
{
    vp_assert(n >= 254, "room for a name");
    b[0] = Rec[At - 1].name[0]; b[1] = Rec[At - 1].name[1]; b[2] = 0;
    return 3;
}
static int It_ToCacheData(DnsSimpleParserIterator *i, char *b, int n)
{
    int k;
    vp_assert(n > 200, "room for data");
    for( k = 0; k < 3; ++k ) if( k < Rec[At - 1].dl ) b[k] = Rec[At - 1].data[k];
    return Rec[At - 1].dl;
}
static uint32_t It_GetTTL(DnsSimpleParserIterator *i) { return Rec[At - 1].ttl; }
int DnsSimpleParser_Init(DnsSimpleParser *p, char *r, int l, BOOL t) { return 0; }
int DnsSimpleParserIterator_Init(DnsSimpleParserIterator *i, DnsSimpleParser *p)
{
    At = First;
    i->Next = It_Next; i->GetName = It_GetName; i->ToCacheData = It_ToCacheData; i->GetTTL = It_GetTTL;
    return 0;
}

/* ---- what has to be in the cache ---- */
static struct { int live; uint32_t ttl; time_t at; } Ref[RECS];
static int SameData(const R *a, const R *b)
{
    int k;
    if( a->dl != b->dl ) return 0;
    for( k = 0; k < 3; ++k ) if( k < a->dl && a->data[k] != b->data[k] ) return 0;
    return 1;
}
static int SameKey(const R *a, const R *b) { return a->type == b->type && a->klass == b->klass && SameText(a->name, b->name); }
static int Alive(int k) { return Ref[k].live && (Ignore || Clock - Ref[k].at < (time_t)Ref[k].ttl); }
static uint32_t Left(int k) { return Ignore ? Ref[k].ttl : Ref[k].ttl - (uint32_t)(Clock - Ref[k].at); }
static uint32_t Lifetime(const R *r);
static struct { IHeader h; uint8_t m[64]; } Msg;
extern int Taken(void);
extern int FullAt;
static void Store(int f, int n)
{
    int k, j, dup, c;
    First = f; Last = f + n;
    Msg.h.Domain[0] = QName[0]; Msg.h.Domain[1] = QName[1]; Msg.h.Domain[2] = 0; Msg.h.EntityLength = 12;
    c = Taken();
    for( k = f; k < f + n; ++k )
    {
        dup = 0;
        for( j = 0; j < k; ++j ) dup |= Alive(j) && SameKey(&Rec[j], &Rec[k]) && SameData(&Rec[j], &Rec[k]);
        if( Rec[k].purpose == DNS_RECORD_PURPOSE_QUESTION || Rec[k].klass != 1 || !Cacheable(Rec[k].type) || Rec[k].dl == 0 || dup || Lifetime(&Rec[k]) == 0 ) continue;
        if( c >= FullAt ) continue;
        ++c;
        Ref[k].live = 1; Ref[k].ttl = Lifetime(&Rec[k]); Ref[k].at = Clock;
        if( Parallel )
        {
            for( j = 0; j < k; ++j ) if( Alive(j) && SameKey(&Rec[j], &Rec[k]) && Left(j) < Ref[k].ttl ) Ref[k].ttl = Left(j);
            for( j = 0; j < k; ++j ) if( Alive(j) && SameKey(&Rec[j], &Rec[k]) ) { Ref[j].ttl = Ref[k].ttl; Ref[j].at = Clock; }
        }
    }
    vp_assert(DNSCache_AddItemsToCache((MsgContext *)&Msg, TRUE) == 0, "stored");
    vp_assert(Held == 0, "unlocked");
}
static int Expired(int k) { return Ref[k].live && Clock - Ref[k].at >= (time_t)Ref[k].ttl; }
static void Sweep(void)
{
    int k;
    if( Ignore ) { vp_assert(Task == NULL, "lifetimes are ignored"); return; }
    for( k = 0; k < RECS; ++k ) if( Expired(k) ) Ref[k].live = 0;
    vp_assert(Task != NULL, "expired records are removed periodically");
    Task(NULL, NULL);
    vp_assert(Held == 0, "unlocked");
}

/* ---- answers ---- */
static struct { int cname; char name[3]; int type, klass, dl, ttl; const uint8_t *data; uint8_t d[3]; } Ans[4];
static int Answers, Room, Sent, Edns, Compressed;
static DNSHeader Hdr;
static int G_CName(DnsGenerator *g, const char *n, const char *c, int ttl)
{
    if( Answers >= Room ) return -1;
    vp_assert(Held == 1, "read under the lock");
    Ans[Answers].cname = 1; Ans[Answers].d[0] = c[0]; Ans[Answers].d[1] = c[0] ? c[1] : 0; Ans[Answers].ttl = ttl;
    ++Answers;
    return 0;
}
static int G_Generate(DnsGenerator *g, const char *n, DNSRecordType t, DNSRecordClass c, const char *d, int dl, int ttl)
{
    int k;
    if( Answers >= Room ) return -1;
    vp_assert(Held == 1, "read under the lock");
    Ans[Answers].cname = 0; Ans[Answers].name[0] = n[0]; Ans[Answers].name[1] = n[0] ? n[1] : 0; Ans[Answers].type = t; Ans[Answers].klass = c;
    Ans[Answers].dl = dl; Ans[Answers].ttl = ttl;
    for( k = 0; k < 3; ++k ) Ans[Answers].d[k] = k < dl ? (uint8_t)d[k] : 0;
    ++Answers;
    return 0;
}
static int Section = 4;
static DnsRecordPurpose G_Next(DnsGenerator *g) { Section += 2; return Section == 6 ? DNS_RECORD_PURPOSE_ANSWER : Section == 8 ? DNS_RECORD_PURPOSE_NAME_SERVER : DNS_RECORD_PURPOSE_ADDITIONAL; }
static int G_EDns(DnsGenerator *g, int s) { vp_assert(Section == 10, "EDNS is an additional record"); ++Edns; return 0; }
static int G_Length(const DnsGenerator *g) { return 30; }
static char *Here;
int DnsGenerator_Init(DnsGenerator *g, char *b, int n, const char *c, int s, BOOL strip)
{
    vp_assert(b == (char *)Msg.m + 20 && n == 44 && c == (char *)Msg.m && s == 20 && strip, "the answer is built behind the query, from its question");
    Here = b;
    g->CName = G_CName; g->Generate = G_Generate; g->NextPurpose = G_Next; g->EDns = G_EDns; g->Length = G_Length; g->Header = &Hdr;
    return 0;
}
int DNSCompress(char *b, int n) { vp_assert(b == Here && n == 30, "what was built is compressed"); ++Compressed; return 25; }
static int Moved;
void *vp_move(void *d, const void *s, size_t n) { Moved = d == (void *)Msg.m && s == (const void *)Here && n == 25; return d; }
int MsgContext_SendBack(MsgContext *m) { vp_assert(m == (MsgContext *)&Msg && Moved && Msg.h.EntityLength == 25, "the answer is sent back"); ++Sent; return 0; }

static void CacheUp(void)
{
    Ignore = MODE < 0 ? vp_bool() : MODE & 1; Parallel = MODE < 0 ? vp_bool() : MODE >> 1; /* kept constant per variant */
    FullAt = FULL < 0 ? vp_range(0, RECS) : FULL;
    if( CTRL ) AnyName(QName); else { QName[0] = 'q'; QName[1] = 0; }
    vp_assume(DNSCache_Init(NULL) == 0);
    vp_assert(Map.h[1] == 102400 && Cache_IsInited(), "the cache is there");
}
static int Chain; /* CNAMEs answered */
static void Fetch(void)
{
    R q;
    int k, a, rc, matches = 0, more = 1, edns = vp_bool();
    AnyName(q.name);
    q.type = AnyType(RECS); q.klass = Ty[RECS] == '?' ? vp_range(1, 2) : 1; q.purpose = DNS_RECORD_PURPOSE_QUESTION; q.dl = 0; q.ttl = 0;
    Rec[RECS] = q;
    First = RECS; Last = RECS + 1;
    Room = vp_range(0, 2);
    Msg.h.EntityLength = 20; Msg.h.EDNSEnabled = edns;
    Hdr.Flags.ResponseCode = 2; Hdr.Flags.Direction = 0;
    rc = DNSCache_FetchFromCache((MsgContext *)&Msg, sizeof(IHeader) + 64);
    vp_assert(Held == 0, "unlocked");
    vp_assert(Sent == (rc == 0), "answered iff found");
    if( rc == 0 )
    {
        vp_assert(Edns == edns && Compressed == 1, "EDNS is answered iff it was asked with");
        vp_assert(Hdr.Flags.Direction == 1 && Hdr.Flags.ResponseCode == 0, "a positive answer");
        vp_assert(q.klass == 1 && Cacheable(q.type), "only cached kinds are answered");
    }
    /* follow what was answered */
    for( a = 0; a < 4; ++a )
        if( a < Answers && Ans[a].cname )
        {
            int ok = 0;
            vp_assert(more && q.type != 5, "a CNAME is followed only at the beginning");
            for( k = 0; k < RECS; ++k )
                if( Alive(k) && Rec[k].type == 5 && SameText(Rec[k].name, q.name) && Rec[k].data[0] == Ans[a].d[0] && (Rec[k].data[0] == 0 || Rec[k].data[1] == Ans[a].d[1]) && (int)Left(k) == Ans[a].ttl ) ok = 1;
            vp_assert(ok, "every CNAME answered is a live cached one of the name reached, with its remaining lifetime");
            q.name[0] = Ans[a].d[0]; q.name[1] = Ans[a].d[0] ? Ans[a].d[1] : 0; q.name[2] = 0;
            ++Chain;
        } else if( a < Answers ) {
            int ok = 0;
            more = 0;
            vp_assert(SameText(Ans[a].name, q.name) && Ans[a].type == q.type && Ans[a].klass == q.klass, "a record of the name reached and the type asked for");
            for( k = 0; k < RECS; ++k )
                if( Alive(k) && SameKey(&Rec[k], &q) && Rec[k].dl == Ans[a].dl && Rec[k].data[0] == Ans[a].d[0] && (Rec[k].dl < 2 || Rec[k].data[1] == Ans[a].d[1]) && (Rec[k].dl < 3 || Rec[k].data[2] == Ans[a].d[2]) && (int)Left(k) == Ans[a].ttl ) ok = 1;
            vp_assert(ok, "every record answered is a live cached one, with its data and remaining lifetime");
            ++matches;
        }
    if( rc == 0 || (q.klass == 1 && Cacheable(q.type) && Answers < Room) )
    {
        int want = 0, chain = 0;
        for( k = 0; k < RECS; ++k ) { if( Alive(k) && SameKey(&Rec[k], &q) ) ++want; if( Alive(k) && Rec[k].type == 5 && SameText(Rec[k].name, q.name) ) chain = 1; }
        vp_assert(q.type == 5 || !chain || matches == 0, "CNAMEs are followed to the end");
        if( Answers < Room )
        {
            vp_assert(q.type == 5 || !chain, "the end of the chain is reached if there is room");
            vp_assert(matches == want, "all live records are answered if there is room");
            vp_assert((rc == 0) == (want > 0), "the cache answers iff it has records");
        }
        if( rc == 0 ) { vp_assert(matches > 0 && matches <= want, "never an empty answer"); vp_witness("hit");
#if CHAIN
            if( Chain > 0 ) vp_witness("hit over CNAME");
#endif
        }
    }
    if( rc != 0 ) vp_witness("miss");
}
#if !CTRL
static uint32_t Lifetime(const R *r) { return r->ttl; }
#endif
