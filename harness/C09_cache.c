/*VP {
 "srcs": ["dnscache.c"],
 "models": ["logs_stub.c", "mem.c", "ht_contract.c"],
 "rename": {"memcpy@dnscache.c": "vp_memcpy", "memmove@dnscache.c": "vp_move", "memset@dnscache.c": "vp_set", "malloc@dnscache.c": "vp_map", "memcmp@dnscache.c": "vp_memcmp", "snprintf@dnscache.c": "vp_snprintf", "time@dnscache.c": "vp_time", "atexit@dnscache.c": "vp_atexit", "strncpy@dnscache.c": "vp_strncpy"},
 "unwind": "RECS+3",
 "unwindset": {"vp_memcpy.*": 13, "vp_memcmp.*": 13, "vp_snprintf.*": 8, "vp_set.*": 18, "(strlen|strcpy).*": 10, "KeyOf.*": 10, "DNSCache_(FindFromCache|GetRawRecordsFromCache|CacheMinTTL).*": "RECS+1", "DNSCache_AddAItemToCache.*": "RECS", "DNSCache_GetCNameFromCache.*": 2, "DNSCache_GetByQuestion.*": 3, "(Taken|CacheHT_.*|vp_harness|Fetch|AnyRecord|It_.*|SameData|G_.*).*": 6, "vp_bytes.*": 5},
 "bounds": "one to three stored records (two in the quick tier; as separate messages at any times, or one message) of any section, class IN or another, types A, CNAME, PTR, MX, SOA, TXT, any lifetime up to 20 s, names of 1 or 2 characters, data of up to 3 bytes, duplicates, prefixes, CNAME chains and loops included; optionally the removal of expired records in between; then one query for any name and type up to 9 s later; room for up to 2 answer records; cache full or not; lifetimes ignored or not, parallel caching or not",
 "stubs": ["messages are scripted record lists behind the parser's interface (decided under C01 to C03), the generated answer is recorded at the generator's interface (C04, C05)", "the node table is a contract (C10)", "no cache control rules (C11)"],
 "cbmc": ["--max-field-sensitivity-array-size", "520"],
 "variants": {
  "any1": {"defs": ["MSGS=1", "NREC=1", "RECS=1", "SWEEP=0", "CTRL=0", "NL=1", "FULL=-1", "TXT=0", "TYS=\"??\"", "DLS=\"2\"", "MODE=-1", "CHAIN=0"]},
  "aa": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=0", "CHAIN=0"]},
  "aai": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=1", "CHAIN=0"]},
  "aap": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=2", "CHAIN=0"]},
  "aaip": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=3", "CHAIN=0"]},
  "full": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=1", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=0", "CHAIN=0"]},
  "both": {"defs": ["MSGS=1", "NREC=2", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=0", "CHAIN=0"]},
  "ca": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"caa\"", "DLS=\"22\"", "MODE=0", "CHAIN=1"]},
  "cai": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"caa\"", "DLS=\"22\"", "MODE=1", "CHAIN=1"]},
  "cc": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"cca\"", "DLS=\"22\"", "MODE=0", "CHAIN=0"]},
  "cac": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"cac\"", "DLS=\"22\"", "MODE=0", "CHAIN=0"]},
  "tt": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=2", "FULL=2", "TXT=1", "TYS=\"ttt\"", "DLS=\"32\"", "MODE=2", "CHAIN=0"]},
  "tt0": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=0", "CTRL=0", "NL=1", "FULL=2", "TXT=1", "TYS=\"ttt\"", "DLS=\"01\"", "MODE=0", "CHAIN=0"]},
  "sweep": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=1", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=0", "CHAIN=0"]},
  "sweepi": {"defs": ["MSGS=2", "NREC=1", "RECS=2", "SWEEP=1", "CTRL=0", "NL=1", "FULL=2", "TXT=0", "TYS=\"aaa\"", "DLS=\"22\"", "MODE=1", "CHAIN=0"]},
  "cca": {"defs": ["MSGS=3", "NREC=1", "RECS=3", "SWEEP=0", "CTRL=0", "NL=1", "FULL=3", "TXT=0", "TYS=\"ccaa\"", "DLS=\"222\"", "MODE=0", "CHAIN=1"], "tiers": ["thorough"]},
  "aaa": {"defs": ["MSGS=3", "NREC=1", "RECS=3", "SWEEP=0", "CTRL=0", "NL=1", "FULL=3", "TXT=0", "TYS=\"aaaa\"", "DLS=\"222\"", "MODE=0", "CHAIN=0"], "tiers": ["thorough"]},
  "aaap": {"defs": ["MSGS=3", "NREC=1", "RECS=3", "SWEEP=0", "CTRL=0", "NL=1", "FULL=3", "TXT=0", "TYS=\"aaaa\"", "DLS=\"222\"", "MODE=2", "CHAIN=0"], "tiers": ["thorough"]}
  }
} VP*/
#include "cache_env.h"

void vp_harness(void)
{
    int m, k;
    CacheUp();
    for( m = 0; m < MSGS; ++m )
    {
        Clock += vp_range(0, 9);
        for( k = 0; k < NREC; ++k ) AnyRecord(&Rec[m * NREC + k]);
        Store(m * NREC, NREC);
        if( SWEEP && m == 0 ) { Clock += vp_range(0, 9); Sweep(); }
    }
    Clock += vp_range(0, 9);
    Fetch();
}
