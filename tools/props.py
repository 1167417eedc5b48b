p("C01", "Data of untrusted records is handled inside the message and the buffer",
  "Turning the data of any record of any received message into its logged text or its cached form never reads outside the message, never writes outside the destination buffer, and always ends. A record whose data is shorter than its type needs is refused instead of completed from neighbouring bytes.",
  ["inputs"], "every message content and every record data length within the bounds, every destination size",
  "a malformed record that reads one byte too far has no visible effect in them.",
  ["dnsparser.c"], [("record data to text and to cache form", "dnsparser.c: TextifyData, ToCacheData, GetAllAnswers")])
p("C02", "Walking a message yields exactly its records, in order, and stops at damage",
  "For every received message, the records handed out are exactly those the header announces, in order, each with the section, type, class, TTL, data position and data length that the wire format gives it. The walk ends at the first record that does not lie wholly inside the message, and never hands out anything beyond the announced ones.",
  ["inputs"], "every message of the bounded sizes: all header counts, owner names (labels or compression pointers), types, classes, data lengths",
  "they never send a truncated or lying message.",
  ["dnsparser.c", "dnsparser.h"], [("message iterator", "dnsparser.c: DnsSimpleParserIterator_Next and friends")])
p("C03", "Names in messages decode exactly, compression included, and loops are rejected",
  "A name at any position of any message is accepted exactly if it is well-formed (labels and backward compression pointers inside the message) and its text fits the buffer; then the text and the number of bytes it occupies are those of the wire format. Decoding always ends, whatever the pointers say.",
  ["inputs"], "every byte content of the bounded messages, every start position, every label/pointer structure within the bounds",
  "no test uses forward, self-referring or truncated pointers.",
  ["dnsparser.c"], [("name decoding", "dnsparser.c: DNSGetHostName")])
p("C07", "The ordered container of pending queries behaves as a set under any history",
  "After any sequence of insertions and removals the container holds exactly the elements inserted and not removed; looking up any key finds a matching element if and only if there is one, and enumeration visits every element exactly once. Removing one element never loses, duplicates or moves another.",
  ["histories", "inputs"], "every history of the bounded length with arbitrary keys, including equal keys",
  "they keep at most one query pending, so no removal ever meets a node with two children.",
  ["bst.c"], [("binary search tree", "bst.c: Bst_Add, Bst_Search, Bst_Delete, Bst_Enum")])
p("C15", "Domain rules match exactly the name, its subdomains and wildcard patterns",
  "A name matches a rule list exactly if some plain rule equals it or one of its parent domains on a label boundary, or some wildcard rule matches the whole name. The rule that decides is the most specific plain one, otherwise the first wildcard rule that matches.",
  ["inputs", "configurations"], "every pair of rule list and name within the bounds, hash collisions included",
  "they use a few fixed rules and names.",
  ["stringchunk.c"], [("rule lists", "stringchunk.c: StringChunk_Add_Domain, StringChunk_Domain_Match")])
p("C26", "A message is taken in only with a well-formed question, and identified by it",
  "A received message is accepted exactly if it carries a well-formed question of class IN inside its bytes; what is recorded about it is that question's name in lower case and its type, whether it carries an EDNS record, its length, and where the answer has to go. Nothing of an earlier message survives in it.",
  ["inputs"], "every message of the bounded sizes and every sender address",
  "they only send well-formed single-question queries.",
  ["iheader.c", "dnsparser.c"], [("message intake", "iheader.c: IHeader_Fill")])
p("C04", "Records and names the server builds are exact, fit, and never half-written",
  "Whatever is generated into a message buffer (questions, each kind of record, EDNS, records copied from a received message) is the wire format of what was asked for, counted in the header, and lies inside the buffer. If it does not fit, or the name is not encodable, it fails without writing beyond the buffer and without counting a record.",
  ["inputs"], "every name, type, class, lifetime, data and buffer size within the bounds",
  "they build no messages.",
  ["dnsgenerator.c", "dnsparser.c"], [("generator", "dnsgenerator.c: DnsGenerator_*, DNSLabelizedName"), ("copying", "dnsgenerator.c: CopyCName, CopyA, CopyAAAA")])
p("C05", "Compression changes how names are written and nothing else",
  "Compressing an answer replaces owner names of class IN answer records by pointers to the question's name or the latest CNAME target before them, and changes nothing else: header, question, other owners, types, classes, lifetimes and data stay, in order. The new length is returned and nothing is left over.",
  ["inputs"], "every message of the bounded shape: owner names, types, classes, data and sections",
  "they send no answers with several records.",
  ["dnsgenerator.c"], [("compression", "dnsgenerator.c: DNSCompress")])
p("C06", "A response is delivered only to the query it answers, once, to its origin",
  "A response is taken exactly if a query with the same identifier, name and type is pending; it then goes to that query's origin (address, socket, transport, requester) with its own length and EDNS state, and that query is no longer pending. Every other pending query stays as it was; an unmatched response reaches nobody.",
  ["histories", "inputs"], "every content of the bounded number of pending queries and responses, colliding identifiers and hashes included, in every order",
  "they never have two queries pending at once.",
  ["mcontext.c", "bst.c"], [("pending queries", "mcontext.c: ModuleContext_Add, ModuleContext_GenAnswerHeaderAndRemove, ModuleContextCompare")])
p("C08", "Queries that stay unanswered are given up after their time, and only those",
  "A sweep reports each query that has been pending for more than two seconds exactly once and forgets it; queries pending for two seconds or less are neither reported nor forgotten, whatever the order they came in.",
  ["histories", "inputs"], "every arrival time and every identifier of the bounded number of queries, every sweep time",
  "time does not pass in them.",
  ["mcontext.c", "bst.c"], [("sweep", "mcontext.c: ModuleContext_Sweep")])
p("C20", "Answers go back unchanged, framed for the transport the query came by",
  "A message is sent back once, on the socket and to the address the query came from: over TCP with its exact length in front, over UDP as it is, to internal requesters behind its header. A refusal is the query itself turned into an empty answer with the refusing flags; nothing else of it changes, and success is reported only if all of it was sent.",
  ["inputs", "faults"], "every message of the bounded sizes, every origin, every result of the sending call",
  "they send nothing.",
  ["iheader.c"], [("sending back", "iheader.c: MsgContext_SendBack, MsgContext_SendBackRefusedMessage")])
p("C21", "EDNS is added to outgoing queries once, whole, and only when configured",
  "With the option on, a query without EDNS gets exactly one EDNS record appended and counted, provided the buffer has room for it, and is then treated as carrying EDNS; otherwise nothing changes. Responses without EDNS are refused exactly when the option is on.",
  ["inputs", "configurations"], "every query of the bounded sizes, every buffer size, the option on or off",
  "they never run with the option.",
  ["iheader.c", "dnsgenerator.c"], [("fake EDNS", "iheader.c: MsgContext_AddFakeEdns, MsgContext_IsBlocked")])
p("C24", "Containers give back exactly what was put into them",
  "Queues give elements back in the order of their keys, hash tables find every element added under its hash value and end, arrays keep every element at its place while they grow, and string lists hold exactly the parts of the text between delimiters, across adding, appending and trimming. Memory handed out by a stable buffer never moves and never overlaps.",
  ["histories", "inputs"], "every history of the bounded length with arbitrary contents",
  "each covers one short history.",
  ["linkedqueue.c", "simpleht.c", "array.c", "stringlist.c", "stablebuffer.c"], [("containers", "linkedqueue.c, simpleht.c, array.c, stringlist.c, stablebuffer.c")])
p("C09", "The cache answers exactly what was stored, while it lives, with time left",
  "A record of a cached type and class stored from a response is answered to every later query for its name and type until its lifetime has passed since it was stored, with its exact data and the lifetime that remains, and to no other query; cached CNAMEs are answered and followed first. A record is stored once however often it arrives, expired ones are never answered (unless lifetimes are ignored), an answer that does not fit is never sent empty, and with parallel caching the records of a name share the least remaining lifetime.",
  ["histories", "inputs", "time"], "every name, type, data and lifetime of the bounded number of records, every storing, sweeping and asking time, cache full or not",
  "nothing tests the cache, and time does not pass in the tests there are.",
  ["dnscache.c"], [("storing", "dnscache.c: DNSCache_AddItemsToCache, DNSCache_AddAItemToCache, DNSCache_FindFromCache"), ("answering", "dnscache.c: DNSCache_FetchFromCache, DNSCache_GetByQuestion"), ("expiry", "dnscache.c: DNSCacheTTLCountdown_Task")])
p("C10", "Cache memory in use is never handed out again, and every record is found",
  "Whatever is stored and removed in any order, a place handed out for a record is not in use, lies inside the memory and has the size asked for; places freed are used again before new ones are made; what other records hold is not touched. A lookup meets every record of its key, the newest first, and none that was removed. Memory that was not allocated is never freed.",
  ["histories", "inputs"], "every history of the bounded skeletons with arbitrary sizes, keys, removed records and times",
  "nothing tests the cache's node table.",
  ["cacheht.c", "array.c"], [("node table", "cacheht.c: CacheHT_FindUnusedNode, CacheHT_InsertToSlot, CacheHT_RemoveFromSlot, CacheHT_Get")])
p("C11", "Cache control rules decide lifetimes exactly as documented",
  "The lifetime a record is cached with is its own one, nothing, a fixed one or a linear function of its own one, by the rule of its name or of the name asked for, as the spreading of the rules says; records with no lifetime are not cached. A rule line means what the documentation says, and one that is cut short or of no known kind is rejected.",
  ["inputs", "configurations"], "every pair of rules, lifetime and relation of the names; every rule text of the bounded form",
  "no test configures a rule.",
  ["dnscache.c", "cachettlcrtl.c"], [("lifetime", "dnscache.c: DNSCache_AddAItemToCache"), ("rules", "cachettlcrtl.c: CacheTtlCrtl_Add_From_String")])
p("C22", "The configuration is read as written: every line, whole, and nothing else",
  "Every line that is not blank or a comment is read exactly once, without its comment and surrounding blanks, however long it is; a line that does not fit is completed or skipped as a whole, and never continued by the next. Options get the values their lines give under their strategy for repeated lines, by any of their names, and unknown or unreadable values change nothing.",
  ["inputs", "configurations"], "every file of the bounded length, every place where lines are cut, every strategy and value of the bounded form",
  "they read no configuration.",
  ["readline.c", "readconfig.c"], [("lines", "readline.c: ReadLine, ReadLine_Rest, ReadLine_GoToNextLine"), ("options", "readconfig.c: ConfigRead, ConfigAddOption, ConfigAddAlias")])
p("C12", "Blocked addresses never pass, substituted ones are replaced, all else stays",
  "A response is discarded exactly if one of the IN A or AAAA records of its answer section carries an address that is configured to be blocked, or if its response code is configured as negative and such responses are to be blocked. Otherwise each address before that is configured to be substituted is replaced by the configured one of the same family, and nothing else of the message changes. A rule for the single address decides before rules for ranges, and of the ranges that contain the address the narrowest one; rules are taken from the configuration as written, and what is no address is ignored.",
  ["inputs", "configurations"], "every message of the bounded shape, every address and every set of rules of the bounded number",
  "no test configures an address rule.",
  ["ipmisc.c", "ipchunk.c"], [("deciding", "ipmisc.c: IPMisc_Process"), ("lookup", "ipchunk.c: IpChunk_Add, IpChunk_Find"), ("configuration", "ipmisc.c: IPMisc_Init")])
p("C14", "Disabled types and domains are refused, all other queries are not",
  "A query is refused, and its client told so once, exactly if its type is one of the disabled types or its name is disabled by one of the configured rules; any other query is left untouched and nothing is sent. The same holds after the lists were loaded again. A configured type that is not a number disables nothing.",
  ["inputs", "configurations", "histories"], "every query type, every list of types of the bounded number, every rule result, before and after reloading",
  "no test configures a filter.",
  ["filter.c"], [("filter", "filter.c: Filter_Init, Filter_Out"), ("lists", "filter.c: FilterType_Init, DisabledDomain_Init")])
p("C19", "Address texts and addresses stand for each other exactly",
  "The text of an IPv4 or IPv6 address is read as exactly that address, and an address is written as a text of exactly that address. A text that is no address is refused or read as some address, and never makes anything outside the address be written. A server is its address and the port written after it, or the default one.",
  ["inputs"], "every value of every group and every place of `::`; every address; every text of the bounded length",
  "they convert a few addresses.",
  ["utils.c", "addresslist.c"], [("reading and writing", "utils.c: IPv4AddressToNum, IPv6AddressToNum, IPv4AddressToAsc, IPv6AddressToAsc"), ("servers", "addresslist.c: AddressList_ConvertFromString")])
p("C23", "Timed tasks run when they are due, as often as asked for, and none is lost",
  "A task added runs after its time has passed and not before, with the arguments it was given, in the thread it was asked for; a periodic one runs again after each further interval, any other one exactly once. Adding tasks at any moment neither delays, hurries, repeats nor loses the ones already there.",
  ["histories", "schedules", "time"], "every interval, kind and moment of adding of the bounded number of tasks, for the bounded number of steps",
  "they run one schedule in real time.",
  ["timedtask.c", "linkedqueue.c"], [("scheduler", "timedtask.c: TimedTask_Add, TimeTask_Work, TimeTask_ReduceTime"), ("order", "linkedqueue.c: LinkedQueue_Push, LinkedQueue_Get")])
