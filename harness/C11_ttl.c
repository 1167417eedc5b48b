/*VP {
 "srcs": ["dnscache.c"],
 "models": ["logs_stub.c", "mem.c", "ht_contract.c"],
 "rename": {"memcpy@dnscache.c": "vp_memcpy", "memmove@dnscache.c": "vp_move", "memset@dnscache.c": "vp_set", "malloc@dnscache.c": "vp_map", "memcmp@dnscache.c": "vp_memcmp", "snprintf@dnscache.c": "vp_snprintf", "time@dnscache.c": "vp_time", "atexit@dnscache.c": "vp_atexit", "strncpy@dnscache.c": "vp_strncpy"},
 "unwind": "RECS+3",
 "unwindset": {"vp_memcpy.*": 13, "vp_memcmp.*": 13, "vp_snprintf.*": 8, "vp_set.*": 18, "(strlen|strcpy).*": 10, "KeyOf.*": 10, "DNSCache_(FindFromCache|GetRawRecordsFromCache|CacheMinTTL).*": "RECS+1", "DNSCache_AddAItemToCache.*": "RECS", "DNSCache_GetCNameFromCache.*": 2, "DNSCache_GetByQuestion.*": 3, "(Taken|CacheHT_.*|vp_harness|Fetch|AnyRecord|It_.*|SameData|G_.*).*": 6, "vp_bytes.*": 5},
 "cbmc": ["--max-field-sensitivity-array-size", "520"],
 "bounds": "one or two records of one response, of the name asked for or another (names of one character), any lifetime up to 20 s; any rule (state, coefficient up to 3, increment up to 100, all ways of spreading) or none for the name asked for and for the other name; then one query at any later time",
 "stubs": ["messages are scripted, answers recorded, the node table is a contract (C10)", "the rule of a name is whatever the rule table says (rules: C11_rule, table: C15)"],
 "variants": {
  "r1": {"defs": ["MSGS=1", "NREC=1", "RECS=1", "SWEEP=0", "CTRL=1", "NL=1", "FULL=1", "TXT=0", "TYS=\"aa\"", "DLS=\"2\"", "MODE=0", "CHAIN=0"]},
  "c1": {"defs": ["MSGS=1", "NREC=1", "RECS=1", "SWEEP=0", "CTRL=1", "NL=1", "FULL=1", "TXT=0", "TYS=\"cc\"", "DLS=\"2\"", "MODE=1", "CHAIN=0"]},
  "r2": {"defs": ["MSGS=1", "NREC=2", "RECS=2", "SWEEP=0", "CTRL=1", "NL=1", "FULL=2", "TXT=0", "TYS=\"caa\"", "DLS=\"22\"", "MODE=0", "CHAIN=1"]}
  }
} VP*/
#include "cache_env.h"

static void AnyRule(CtrlContent *c)
{
    c->State = vp_range(-1, 2); c->Infection = vp_range(0, 2);
    c->Coefficient = c->State == TTL_STATE_FIXED ? 0 : vp_range(0, 3);
    c->Increment = vp_range(0, 100);
}
static uint32_t Lifetime(const R *r)
{
    int same = SameText(r->name, QName);
    const CtrlContent *own = same ? (HasQuestion ? &ByQuestion : NULL) : HasName ? &ByName : NULL, *c;
    if( !HasQuestion ) c = own;
    else if( ByQuestion.Infection == TTL_CTRL_INFECTION_AGGRESSIVLY ) c = &ByQuestion;
    else if( ByQuestion.Infection == TTL_CTRL_INFECTION_PASSIVLY ) c = own != NULL ? own : &ByQuestion;
    else c = own;
    if( c == NULL || c->State == TTL_STATE_ORIGINAL ) return r->ttl;
    if( c->State == TTL_STATE_NO_CACHE ) return 0;
    return c->Coefficient * r->ttl + c->Increment;
}

void vp_harness(void)
{
    int k;
    HasQuestion = vp_bool(); HasName = vp_bool();
    AnyRule(&ByQuestion); AnyRule(&ByName);
    CacheUp();
    for( k = 0; k < NREC; ++k ) AnyRecord(&Rec[k]);
    Store(0, NREC);
    Clock += vp_range(0, 200);
    Fetch();
    if( HasQuestion && ByQuestion.Infection == 1 && !SameText(Rec[0].name, QName) && HasName ) vp_witness("own rule first");
}
