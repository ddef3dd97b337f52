"""Which monitors decide which property: package, test function, build mode per stage."""
STAGES = {}
def S(prop, rule, *stages, **kw):
    STAGES[prop] = dict(rule=rule, stages=list(stages), **kw)
def st(name, test, mode="plain", **kw):
    return dict(name=name, test=test, mode=mode, **kw)

S("C01", "A case is one search (scoring function, direction, limit, filters, API entry point) on a generated data set after inserts, overwrites and deletes; non-trivial when at least two live entries exist; distinct by data set, query and options.",
  st("model", "TestModel", min=500))
S("C02", "A case is one aggregated search over a local data set, up to 5 scripted sources answering overlapping, duplicated and tied results after random virtual delays, and up to 4 query vectors; non-trivial when a source and at least two distinct entries take part; distinct by configuration and union.",
  st("union", "TestUnion", min=200))
S("C03", "A case is one grouped or context-ranked search over local and scripted candidates; non-trivial when at least two groups or candidates exist; distinct by options and scores. Cases with a tie exactly at the candidate cut are skipped and counted.",
  st("groups", "TestGroups", min=200))
S("C20", "A case is one search in virtual time with up to 5 scripted sources that answer early, close to the deadline, late, in two halves or never, or one search in real time over connections to up to 5 scripted gRPC servers that are prompt, late, fail, die, hang, say nothing or are gone; non-trivial with at least one source; distinct by configuration, contributions and answer time.",
  st("deadline", "TestDeadline", min=150), st("wire", "TestWire", min=20))
S("C21", "A case is a history of one cached query repeated over changing content and virtual time, with mutating consumers, followed by near-identical queries differing in one field; distinct by history.",
  st("cache", "TestCache", min=60))
S("C04", "A case is the recorded history of one key (inserts, deletes and the reads derived from every search and listing) of a short concurrent run over a family of keys that differ in one field; non-trivial when conflicting operations overlap; distinct by run, key and overlap.",
  st("plain", "TestHistories", min=100), st("race", "TestHistories", mode="race", min=50))
S("C05", "A case is a history of inserts, re-inserts, deletes, refreshes and virtual waits (up to weeks) on one data set with a read after every step; non-trivial when live and expired entries were both observed. In the revive stages a case is one round of re-inserts of just expired entries concurrent with scans.",
  st("model", "TestModel", min=100), st("long", "TestModel"), st("revive", "TestRevive", min=100), st("revive-race", "TestRevive", mode="race", min=30))
S("C06", "A case is a sequence of valid and invalid inserts, deletes, refreshes, waits and configuration updates around the capacity target, with the content compared after every insert; non-trivial when inserts were both accepted and refused; distinct by outcome sequence.",
  st("admission", "TestAdmission", min=80))
S("C07", "A case is a history of inserts, overwrites, refreshes and optionally a graceful close of one node with up to 4 scripted faulty peers, or rounds of simultaneous rebalancing between 2-4 real members, or a run in real time in which entries are overwritten while they are handed over or inserted while the data set closes; non-trivial when entries moved; distinct by configuration and event counts.",
  st("faults", "TestConservation", min=60), st("race", "TestConservation", mode="race", min=15), st("members", "TestMembers", min=30), st("wire", "TestWire", min=4), st("stress", "TestStress", min=100))
S("C08", "A case is a series of inserts at one member with scripted peers that accept, fail or alternate (outcome compared with acknowledged copies), or one insert into a cluster of real members (outcome compared with real copies); non-trivial with peers; distinct by configuration and outcome.",
  st("scripted", "TestScripted", min=150), st("members", "TestMembers", min=60), st("wire", "TestWire", min=20))
S("C09", "A case is a history of inserts, expiries, deletes, concurrent refreshes and configuration updates followed by five refreshes, after which every published statistic is compared with one computed in double precision; non-trivial when the entries are spread out; distinct by content.",
  st("stats", "TestStats", min=80))
S("C10", "A case is one index search on a data set whose content has moved on since the last refresh, with vectors of one or of mixed dimensions; non-trivial when an index over at least two entries exists; distinct by content and query. In the recall stage a case is one query on a refreshed data set.",
  st("sound", "TestSound", min=500), st("asan", "TestSound", mode="asan", min=200), st("recall", "TestRecall", min=500))
S("C11", "A case is one round of 4-8 goroutines applying random operations of every kind (inserts, deletes, exact, index and aggregated searches, listings, info, refreshes, configuration updates, source registration, a second processor, close) to one data set; distinct by the mix of operations.",
  st("race", "TestStress", mode="race", min=40), st("asan", "TestStress", mode="asan", min=40))
S("C12", "A case is a sequence of registry operations over hostile names compared with a model after every step, or one concurrent round (creations and updates of the same names with monotone-version observers; deletions with listings and saves); distinct by history or round.",
  st("model", "TestModel", min=100), st("concurrent", "TestConcurrent", min=100), st("race", "TestConcurrent", mode="race", min=50))
S("C13", "A case is a folder worked on by child processes that are killed at random instants (during creations, updates, deletions, saves and loads) and reopened after each kill, or interrupted and repeated openings of a large index, or a save cut off by a file size limit; distinct by the recovered states.",
  st("kill", "TestKill", min=20), st("reopen", "TestReopen", min=15))
S("C14", "A case is a history of creations, deletions, closings, retention expiries and standalone data sets over hostile names with a full snapshot of the scratch tree compared around every step, or one server process ended in one of seven ways; non-trivial when something was removed; distinct by history.",
  st("names", "TestNames", min=60), st("server", "TestServer", min=7), server=True)
S("C15", "A case is one generated key and value with up to 16 mutants that differ in one field or move bytes between neighbouring fields, encoded, decoded (fresh, reused, with trailing bytes) and entered into a collision map; distinct by lengths and fields. Lengths sit around the length-prefix boundaries up to 2^21+1.",
  st("plain", "TestEncoding", min=1000), st("race", "TestEncoding", mode="race", min=200), st("asan", "TestEncoding", mode="asan", min=200))
S("C16", "A case is one generated request (any of the nine calls, fields absent, empty, contradictory, non-finite or extreme) sent by one of four concurrent attackers to a node process that refreshes and runs its periodic tasks all the time, while a well-behaved client checks inserts, listings, infos and searches; distinct by request text.",
  st("plain", "TestHostile", min=500), st("race", "TestHostile", mode="race", min=150), st("peers", "TestPeers", min=100))
S("C17", "A case is one search (exact function, direction, limits, grouping or context, 1-3 query vectors, with and without identifier) at one node of a live loopback cluster of 2-4 nodes over a random directed peer graph, or a cluster that found itself by gossip, compared with one node holding everything reachable; non-trivial when a peer and an entry are reachable; distinct by graph, origin and options.",
  st("cluster", "TestCluster", min=120), st("race", "TestCluster", mode="race", min=30), st("discovery", "TestDiscovery", min=10), st("repeat", "TestRepeat", min=300))
S("C18", "A case is a sequence of announcements (join, gossip, direct; any address order, timestamps around the freshness limit, own and overlapping address sets), record checks and virtual waits compared with a model after every step, or one round of concurrent announcements of the same peers with record checks and a monotone observer; non-trivial when records were both accepted and refused; distinct by history.",
  st("table", "TestTable", min=200), st("concurrent", "TestConcurrent", min=200), st("race", "TestConcurrent", mode="race", min=60))
S("C19", "A case is the recorded trace of one node process: probes from before its start, concurrent inserts (direct and over gRPC, into existing and fresh data sets), probes and periodic tasks across a graceful shutdown that refusing peers keep busy for two seconds; non-trivial when probes and inserts were seen on both sides of the shutdown; distinct by event counts. The server stage drives the real binary and its HTTP probes.",
  st("drain", "TestDrain", min=12), st("race", "TestDrain", mode="race", min=4), st("server", "TestServer", alone=True), server=True)
S("C22", "A case is one data stream request in virtual time (any number of entries, consumers of up to a minute per entry, entries that were overwritten, deleted or expired before, sends that fail midway), or up to four concurrent streams (channel, scripted stream, real gRPC, some abandoned) next to clients that insert, overwrite, delete and refresh; non-trivial with at least two entries; distinct by sizes and deliveries.",
  st("virtual", "TestVirtual", min=60), st("concurrent", "TestConcurrent", min=40), st("race", "TestConcurrent", mode="race", min=10))
S("C23", "A case is one kind of operation (index, exact, timed-out and abandoned searches, refreshes alone and concurrent, closed, deleted and emptied data sets, streams, requests, peer exchange) repeated for a warm-up and then for one and three more batches, with goroutines, descriptors, temporary files, index mappings and native bytes compared once everything has settled; distinct by kind. The long stage repeats hours of virtual time of nodes with data sets and peers that come and go. The lsan stage lets the leak sanitizer judge the native heap at exit.",
  st("growth", "TestGrowth", min=12), st("long", "TestLong", min=4), st("lsan", "TestLeaks", mode="asan", lsan=True, min=5))
S("C24", "A case is one native index (metric, dimension, items with duplicates, gaps and replacements, trees, in memory or built on disk) asked a series of questions when built, and again after saving, loading, copying and refused loads; non-trivial with at least two items; distinct by parameters.",
  st("plain", "TestIndex", min=700), st("asan", "TestIndex", mode="asan", min=200))
S("C27", "A case is one scoring function (every known name and unknown ones) on a generated pair of vectors: lengths 0 to 2049 equal and unequal, identical, opposite, parallel, neighbouring, permuted, sparse, zero, large and small, in both argument orders; or the score a search reports for one entry; non-trivial when both vectors have components; distinct by function, lengths and score.",
  st("pairs", "TestScores", min=5000), st("search", "TestThroughSearch", min=500))
S("C25", "A case is a history of creations and updates with retention periods, uses, inserts with and without time-to-live, deletions, refreshes, peers that come, change and become unreachable, maintenance rounds and virtual waits up to and around the end of the retention, with existence and content of every data set compared after each step; non-trivial when data sets both had to exist and were removed; distinct by history. In the concurrent stages a case is one round of inserts into fresh data sets against continuous maintenance.",
  st("retention", "TestRetention", min=25), st("long", "TestRetention"), st("concurrent", "TestConcurrent", min=50), st("race", "TestConcurrent", mode="race", min=20))
S("C26", "A case is one run of up to 60 concurrent users of a connection cache over 1-3 loopback servers under up to 160 addresses (more than the cache keeps), holding connections across unary and streaming calls that report where they arrived, with all servers up or with servers that stop and come back; non-trivial when calls were made (and, with restarts, also failed); distinct by counts.",
  st("steady", "TestSteady", min=8), st("steady-race", "TestSteady", mode="race", min=8), st("restart", "TestRestart", min=6), st("restart-race", "TestRestart", mode="race", min=3))
S("C28", "A case is a directory on which a server binary lives two to four lives (graceful ends by SIGTERM or SIGINT, repeated signals, running requests, kills, starts that fail), each life announcing its addresses and data sets to two services that compare them with a model; or one server that its own periodic task synchronized with two members, then terminated; non-trivial with a graceful end and a restart; distinct by history.",
  st("lives", "TestLives", min=12), st("handover", "TestHandover", min=3), server=True)
S("C29", "A case is over half an hour of virtual membership at one node (peers under one to three addresses that announce themselves every minute, stop, return and change their data sets, with the node's periodic synchronization in between and probes of its peer table and sources at random instants), or one formation of a live loopback cluster (star, chain, ring or tree of service addresses, with and without advertised addresses; after a configuration update; with one node more; with a node that was away); distinct by history.",
  st("virtual", "TestVirtual", min=12), st("cluster", "TestCluster", min=25), st("race", "TestCluster", mode="race", min=10))
S("C30", "A case is one check of two to four real members in virtual time, an hour and more after content arrived at one of them (some members out of reach at first, a second content with another centre later), with their own background refreshes: what each holds and how far its centre is from that of everything; distinct by shares and centres.",
  st("spread", "TestSpread", min=40))
