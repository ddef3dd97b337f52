#!/usr/bin/env python3
"""Source of truth for /verif/properties.jsonl and /verif/MANIFEST.json (run it to regenerate both)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

def P(id, title, statement, over, qtext, why, files, mech, observe, tech=None, note=None, hook=None, state=None):
    return dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                mech=mech, observe=observe, tech=tech, note=note, hook=hook, state=state or [])

PROPS = [
P("C01", "Exact search returns the true k best live entries, in order",
  "A search that does not use the approximate index returns exactly the best `limit` live entries of the data set under the requested scoring function and direction (all of them when there are fewer), ordered best first, each once and with its true score. Entries whose label or group label lacks a requested JSON filter path are never returned and never displace an entry that has it. A limit of zero returns nothing and an arbitrarily large limit is served like any other.",
  ["inputs", "histories"], "every data set reachable by inserts, overwrites and deletes, every query vector, scoring function, direction, limit and filter list",
  "The repository's tests never call the exact search with an assertion; the result depends on the whole content, the score function, the direction, ties and the filters.",
  ["data/search.go", "data/util.go", "data/newsync.go"],
  [("top-k collector with bounded list and re-sort on insert", "data/search.go Collector.Insert"), ("filter check before collection", "data/search.go Collector.PassesFilters"), ("scan of live entries", "data/newsync.go LoopDBMap")],
  ["results of exact searches (local, streamed, and through the aggregated entry point)"],
  tech="reference-model monitor over randomized data sets and queries",
  note="Every search result of thousands of generated (data set, query) cases is compared online with an independent float64 top-k oracle that is tie- and rounding-aware; holds on what was explored. Trusts the oracle and gjson path semantics on the simple paths generated."),
P("C02", "Merged search over sources and query vectors is the best of the union",
  "An aggregated search over a local data set, its peers and one or several query vectors returns the best `limit` distinct entries of the union of everything the participants returned, ordered best first, each entry at most once and with the best of its scores, for both directions of scoring. When a result limit is given, exactly the first that many of those are returned. The outcome does not depend on the order in which participants answer.",
  ["inputs", "schedules"], "every distribution of entries (with overlaps) over up to five participants, every number of query vectors, arrival order, limit, result limit and score direction",
  "The only aggregated-search test is commented out; wrong direction, duplicates or order dependence need several sources with overlapping data and a full result list.",
  ["data/aggregator.go", "data/search.go"],
  [("aggregator with per-key de-duplication", "data/aggregator.go Insert/InsertToList"), ("merge loops", "data/search.go AggregatedSearch, MultiAggregatedSearch")],
  ["result list of aggregated searches with scripted sources"],
  tech="reference-model monitor with scripted sources and permuted arrival orders",
  note="Scripted sources deliver generated overlapping result sets in permuted orders, with virtual-time delays; an independent oracle computes the union top-k. Bounded by generated sizes (<=5 sources, <=4 query vectors)."),
P("C03", "Grouped and context-ranked search results",
  "With a group limit, a search returns at most one entry per group label, that entry is the group's best-scoring member, and the group's score combines its best `group limit` members: their sum when higher is better, their mean divided by their number when lower is better; results are ordered by that score, and the candidates are the best `limit` entries of each query vector, wherever in the cluster they are stored. With a search context the score of every entry is the best among its own score and its scores against the context vectors, and only the latter when the context is prioritized; an empty context has no effect. Groups then combine these scores.",
  ["inputs"], "every assignment of entries to groups, group limit, context vector list, prioritize flag and direction",
  "No test exercises grouping or context at all.",
  ["data/aggregator.go"],
  [("group aggregation", "data/aggregator.go Insert/Result/One"), ("context scoring", "data/aggregator.go BestScore")],
  ["result list of grouped or context searches"],
  tech="reference-model monitor over randomized grouped/context queries",
  note="Independent oracle recomputes groups and context scores for thousands of generated cases; groups of context-scored entries as well."),
P("C04", "Concurrent inserts, overwrites, deletes and reads are linearizable per key",
  "An acknowledged insert is visible to every exact search and full listing that starts afterwards with its exact label and version, a later insert of the same key replaces it, and an acknowledged delete removes it; two keys differing in any field (vector, group label, sizes, dimensions) never interfere. This holds for every interleaving of concurrent inserts, deletes, searches, listings and statistics refreshes: the history of each key is linearizable.",
  ["schedules", "histories"], "all interleavings of concurrent clients and maintenance on the same and on neighbouring keys",
  "Tests insert sequentially from one goroutine and never delete; lost updates need particular interleavings.",
  ["data/insert.go", "data/delete.go", "data/newsync.go", "data/datum.go"],
  [("concurrent map keyed by encoded key", "data/newsync.go InsertBDMap/DeleteBDMap/LoopDBMap")],
  ["call/return events of insert, delete, search, listing at the client boundary"],
  tech="recorded histories checked for per-key linearizability (porcupine), race detector on",
  note="Many short concurrent histories with unique values are recorded at the API boundary and checked per key by porcupine; also run under the Go race detector. Held on the recorded histories only."),
P("C05", "Time-to-live is honoured exactly on the read side",
  "An entry inserted with a time-to-live is returned by exact searches and listings until its time-to-live has passed (with a resolution of one second) and never afterwards, and an entry without one never expires, including for very large values. Re-inserting an entry with a later expiry extends its life (a re-insert that would move the expiry by less than ten seconds and carries the same value may be ignored), and an expiring old version never takes a newer acknowledged version with it.",
  ["histories", "inputs", "schedules"], "every sequence of inserts and re-inserts with any time-to-live at any (virtual) time, read at any time",
  "Tests use no time-to-live; expiry needs time to pass and interacts with re-insertion and with concurrent scans.",
  ["data/newsync.go", "data/insert.go"],
  [("expiry timestamp per entry, lazily removed on scan", "data/newsync.go InsertBDMap, LoopDBMap")],
  ["search and listing results at virtual times around each expiry"],
  tech="virtual-time (synctest) reference-model monitor plus concurrent expiry/re-insert stress",
  note="Runs the real code in a synctest bubble whose fake clock makes days of TTL behaviour deterministic; every read is compared with a model of expiries. The concurrent part is a stress and only covers observed interleavings."),
P("C06", "Capacity target: over-target inserts are refused without side effect",
  "Once a data set's reported size has reached its target, inserts are refused with an error and leave the stored content unchanged, while below the target, or when the data set has no target, valid inserts are accepted. An accepted insert is stored, and one refused as invalid or for capacity is not.",
  ["inputs", "histories", "configurations"], "every target, no-target flag, content size and sequence of inserts and statistics refreshes",
  "Tests never reach the target of 1000.",
  ["data/insert.go", "data/newsync.go"],
  [("admission check against the refreshed count", "data/insert.go Insert")],
  ["insert outcomes and listing before and after"],
  tech="reference-model monitor over randomized insert/refresh sequences",
  note="Admission decisions are compared with a model of target and last reported size on generated sequences, including boundary sizes."),
P("C07", "Rebalancing and graceful close never lose an entry",
  "Background rebalancing and graceful close remove an entry from a node only after some peer has acknowledged that very version of it, with its remaining time-to-live; entries whose transfer failed or was refused stay, and eviction stops when the node is down to its target utilization. A graceful close with at least one peer that accepts entries returns after every live entry (other than ones within ten seconds of expiry) has been handed over.",
  ["fault_sequences", "schedules", "histories"], "every pattern of peer failures and refusals, every content with and without time-to-live, and inserts concurrent with rebalancing",
  "Tests have no peers with data; loss needs a failing or slow peer, or an overwrite between the transfer and the removal.",
  ["data/newsync.go", "data/sync.go", "data/data.go"],
  [("delete only on peer acknowledgement", "data/newsync.go Process"), ("eviction threshold", "data/sync.go isEvictionOn"), ("drain loop", "data/data.go Close"), ("remaining TTL", "data/sync.go InsertConfigFromExpireAt")],
  ["insert events received by scripted peers and the node's content after each refresh"],
  tech="conservation monitor over event logs of scripted faulty peers in virtual time",
  note="Scripted peers (failing, refusing, slow, unreachable) log every acknowledged transfer; the monitor checks in = held + acknowledged per version. Real members also rebalance and leave among each other, in virtual time with delays and as node processes over loopback gRPC with refused inserts and lost acknowledgements."),
P("C08", "Enforced replication on insert is real",
  "With replication enforced, an insert is acknowledged only if the entry is stored on at least the configured number of members including the receiver, and otherwise reports an error; replicas carry the same key, value and time-to-live. A replica insert is not forwarded again, and replication does not depend on any earlier insert.",
  ["configurations", "fault_sequences"], "every replication factor, number of peers, peer failure pattern and insert sequence",
  "Tests run with replication off and no data sources.",
  ["data/insert.go", "data/data.go"],
  [("replication loop with acknowledgement counter", "data/insert.go Insert"), ("hop count in the insert config", "data/insert.go Insert")],
  ["insert outcome versus inserts acknowledged by scripted peers"],
  tech="event-log monitor over scripted peers with injected failures",
  note="Outcome of each insert is compared with the number of acknowledged copies recorded at scripted peers, over generated factors, peer counts (<=5) and failure patterns, and with the copies really held by clusters of node processes (<=4) with refused, lost and dead replicas."),
P("C09", "Published statistics converge to the true statistics of the content",
  "After the content stops changing, a bounded number of statistics refreshes (forced or periodic) makes the reported size equal the number of live entries, the reported center their mean, the reported maximum distance the largest distance to that center, and the histogram the true distribution of distances to the center, with total weight one unless all entries lie at the center. The reported identity, version and target fields always equal the configured ones.",
  ["inputs", "histories"], "every content (a component an entry lacks counts as zero in the center and is left out of its distance) and every history leading to it",
  "Tests print the statistics without asserting anything.",
  ["data/newsync.go", "data/util.go", "data/data.go"],
  [("incremental statistics in the refresh loop", "data/newsync.go Process"), ("info snapshot", "data/data.go GetDataInfo")],
  ["reported data info after each refresh"],
  tech="reference-model monitor after bounded refreshes",
  note="Bounded-progress form of convergence: five forced refreshes after the last change; compared with float64 statistics within rounding tolerances."),
P("C10", "Index-accelerated search is sound and useful",
  "A search through the approximate index returns at most `limit` entries, each one an entry that was live at the last refresh or is live now, each once, with its true score and passing the filters; before any index exists it falls back to the exact search. A query equal to a stored vector finds that vector nearly always, and the average recall stays far above chance. Vectors of other dimensions, in the content or in the query, are tolerated.",
  ["inputs", "histories"], "every content, query vector, limit and filters, before and after refreshes",
  "One test checks one query on one data file; index/entry mix-ups, stale indexes and dimension mismatches are not covered.",
  ["data/search.go", "data/newsync.go", "annoyindex/annoyindex.go", "annoyindex/annoylib.h"],
  [("index snapshot rebuilt on refresh", "data/newsync.go Process"), ("index search", "data/search.go SearchAnnoy")],
  ["results of index searches"],
  tech="reference-model monitor with recall statistics, AddressSanitizer on",
  note="Soundness is checked on every result; recall against conservative thresholds on fixed seeds. Runs also with AddressSanitizer over the C++ index."),
P("C11", "A data set is memory-safe and race-free under concurrent use",
  "Concurrent inserts, deletes, exact and index searches, listings, info requests, statistics refreshes, configuration updates, source registration and close on one data set never cause a data race, an out-of-bounds or use-after-free access, a crash or a deadlock, and every operation completes.",
  ["schedules", "inputs"], "all interleavings of the public operations of a data set, including vectors of differing dimensions",
  "No test runs operations concurrently or under a sanitizer.",
  ["data/data.go", "data/newsync.go", "data/search.go", "data/insert.go", "annoyindex/annoygomodule_wrap.cxx"],
  [("locks around statistics, index swap and initialization", "data/data.go, data/newsync.go, data/search.go")],
  ["race detector reports, AddressSanitizer reports, crashes, progress counters"],
  tech="Go race detector and AddressSanitizer under a hostile concurrent workload",
  note="Held on the interleavings produced; reports are decided by the sanitizers, progress by operation counters with a generous watchdog."),
P("C12", "The data-set registry is atomic, idempotent and version-monotonic",
  "Creating a data set that exists never replaces it or its content, concurrent creations of one name all end with the same data set, and its configuration is replaced only by one with a higher version, so the visible version never decreases. A deleted data set stays gone until someone asks for it again by name, listings show exactly the existing names, and names never share content.",
  ["schedules", "histories"], "all interleavings of create, get, update, delete, list and background index saving",
  "Tests never use the registry directly.",
  ["data/dataset.go"],
  [("add-if-absent cache and version check", "data/dataset.go CreateIfNotExists")],
  ["registry calls and their results, versions observed over time"],
  tech="model-based monitor plus concurrent stress with monotonicity checks, race detector on",
  note="Sequential model checking of generated operation sequences and concurrent stress with monotone-version and identity monitors under the race detector."),
P("C13", "The saved data-set index survives crashes at any point",
  "After the process is killed at any instant, reopening the folder recovers every data set whose creation had been saved and not deleted, with its exact configuration and latest saved version; a torn or empty index is never observed. Reopening itself never loses entries of the index, however many there are, and a save that fails leaves the previously saved index intact. A creation or deletion is saved in the background without being asked for.",
  ["crash_points", "histories"], "every crash instant during creates, deletes, updates, loads and saves, any number of data sets",
  "Tests never reopen a folder or crash.",
  ["data/dataset.go"],
  [("index save and load", "data/dataset.go SaveIndex/LoadIndex")],
  ["registry content after reopening a folder left by a killed process"],
  tech="SIGKILL crash injection with a persisted-set oracle",
  note="Child processes are killed at random instants while saving; the reopened registry is compared with the set acknowledged as saved. Process crashes only, no power-loss model."),
P("C14", "Nothing outside a data set's own directory is ever removed",
  "Closing, deleting or expiring a data set, whatever its name, removes nothing outside that data set's own directory below the node's data folder: other data sets' directories, the folder itself, sibling and parent files all survive. A server whose start-up or serving fails does not remove a user-supplied data directory or its content.",
  ["inputs", "fault_sequences"], "every data set name accepted over the API (separators, dot segments, empty, long, unicode) and every way to end a server",
  "Tests use plain names in temporary directories.",
  ["data/data.go", "data/dataset.go", "server/veriserviceserver.go"],
  [("data set path construction and removal", "data/data.go NewPreData/DeletePath"), ("server directory handling", "server/veriserviceserver.go RunServer")],
  ["file tree of a scratch area before and after"],
  tech="file-system snapshot monitor over hostile names in a confined scratch tree",
  note="Runs with an unprivileged user id in a scratch tree deep enough that every generated traversal stays inside it; the tree is diffed before and after each operation."),
P("C15", "Key and value encoding is faithful and collision-free",
  "Encoding and decoding a key or value yields the identical key or value for every vector (bit patterns included), label, group label, size, dimension and version, and two different keys or values never encode to the same bytes. The encoding consumes exactly its own bytes, and building a datum keeps every argument.",
  ["inputs"], "all keys and values, including lengths around the length-prefix boundaries",
  "One test encodes one small datum.",
  ["data/gencoder/gencoder.go", "data/datum.go", "util/util.go"],
  [("length-prefixed binary encoding", "data/gencoder/gencoder.go"), ("datum construction", "data/datum.go NewDatum")],
  ["encoded bytes and decoded structures"],
  tech="round-trip and injectivity monitor over generated and mutated keys/values",
  note="Round trip with bit-exact comparison, collision map over near-identical mutants, and decoding into reused structures, on generated inputs."),
P("C16", "Malformed or extreme requests never take a node down",
  "Whatever well-formed protocol message a client sends, with any fields missing, empty, contradictory or extreme, the node answers with a result or an error, keeps running, and continues to serve valid requests correctly; inserts rejected as malformed leave no trace. Answers of peers with missing or extreme fields do not take it down either and do not hide its own entries.",
  ["inputs"], "every request message of the service with any subset of fields absent or extreme",
  "Tests send no requests at all through the service.",
  ["node/nodeservice.go", "node/node.go", "data/insert.go", "data/search.go"],
  [("request validation", "node/nodeservice.go, data/insert.go, data/search.go")],
  ["responses of a live node to hostile requests and to interleaved valid ones"],
  tech="protocol fuzzing of a live node with liveness and correctness probes",
  note="Generated hostile requests over real gRPC against a node in a child process, with a probe after each; held on the generated requests."),
P("C17", "Cluster search terminates, de-duplicates and covers reachable peers",
  "A search sent to any node of a cluster with cyclic peer relations terminates, evaluates each query vector at most a bounded number of times per node, and returns each entry at most once; a query identifier repeated within the next minutes is answered with an empty result. Once nodes know each other, a search with one or several query vectors at any node returns the best entries among all of them.",
  ["configurations", "inputs"], "every peer topology (including cycles), data placement, number of query vectors and query identifiers",
  "The cluster test asserts nothing and stores no data.",
  ["node/nodeservice.go", "node/datasourceclient.go", "data/search.go"],
  [("query identifier cache", "node/nodeservice.go SearchStream"), ("peer fan-out", "data/search.go AggregatedSearch, node/datasourceclient.go StreamSearch")],
  ["search results of every node of live clusters; number of search requests reaching each node"],
  tech="live multi-node clusters over loopback gRPC with counting interceptors and a union oracle",
  note="Real nodes over loopback; interceptors count search requests per query. Topologies up to four nodes; with several query vectors a node may be asked each vector once more, and result caching is off here (C21)."),
P("C18", "The peer table keeps only the newest recent record of other nodes",
  "For every sequence or interleaving of join and gossip messages, a node's peer table holds at most one record per peer address set (in any order), always the one with the newest timestamp received among the recent ones, never a record older than five minutes when received, and never one with exactly the node's own address set. Handling a message never alters the caller's or the stored record's content.",
  ["schedules", "histories"], "all orders and interleavings of announcements with any timestamps and address orders",
  "The cluster test only logs the peers.",
  ["node/node.go", "node/nodeservice.go"],
  [("timestamp comparison and freshness check", "node/node.go AddPeerElement/CheckPeer")],
  ["peer table after each message"],
  tech="model-based monitor in virtual time plus concurrent stress under the race detector",
  note="Sequential sequences are checked against a model in virtual time; concurrent histories are checked for newest-wins at quiescence under the race detector."),
P("C19", "A draining node refuses writes and stays not ready; probes tell the truth",
  "From the moment a graceful shutdown starts, every insert request is refused and the readiness probe reports unavailable, and neither reverts, whatever periodic tasks run. Before shutdown the readiness probe reports available only after the node has synchronized with its peers once, and the health probe reports healthy while the server runs.",
  ["schedules", "histories"], "every interleaving of shutdown with periodic synchronization, inserts and probes",
  "No test closes a node or queries a probe.",
  ["node/node.go", "node/nodeservice.go", "server/httpservice.go", "state/state.go"],
  [("drain flag checked on insert", "node/nodeservice.go Insert"), ("readiness flag", "node/node.go SyncWithPeers/Close"), ("probes", "server/httpservice.go")],
  ["probe responses and insert outcomes around shutdown"],
  tech="trace-specification monitor over a node being drained, race detector on",
  note="Monitors the real handlers while shutdown, sync and inserts interleave; irreversible-drain is checked on the recorded traces."),
P("C20", "A search answers by its deadline with whatever was collected",
  "A search returns no later than its timeout even if peers hang, answer slowly or never, and its result then contains at least everything the local data set and the peers that answered in good time (well before the timeout) contributed, ranked as usual. A peer gets less time than the whole search, so one that itself waits for a hanging peer still contributes its own entries. Peers that answer late never corrupt, duplicate or crash a later search.",
  ["fault_sequences", "schedules"], "every pattern of peer delays around the timeout, any timeout value",
  "Tests have no peers and assert no timing.",
  ["data/search.go", "node/datasourceclient.go"],
  [("timers in the merge loops", "data/search.go AggregatedSearch, MultiAggregatedSearch"), ("limit of a search at a peer", "node/datasourceclient.go StreamSearch")],
  ["virtual return time and result of searches with delayed sources"],
  tech="virtual-time (synctest) monitor with scripted delays, and scripted gRPC peers in real time",
  note="Time is virtual, so deadlines are exact; every generated delay pattern is checked for return time and for the guaranteed part of the result. Over real connections the same holds with a margin, in cases without overload."),
P("C21", "Cached search results are only reused for the same query while fresh",
  "With caching requested, a repeated identical query may be answered from the cache with exactly the earlier answer, but no later than the cache duration after that answer was computed; a query differing in vector, key fields or any search option other than the query identifier is computed afresh. Consumers that reorder, truncate or overwrite the entries and scores of an answer never alter what the cache returns later.",
  ["inputs", "histories"], "every pair of queries and configurations, every modification of returned results, at any virtual time",
  "Tests never enable the cache.",
  ["data/search.go"],
  [("query key", "data/search.go GetSearchKey/EncodeSearchConfig"), ("cloning on store and on hit", "data/search.go CloneResult")],
  ["results of repeated and near-identical queries over changing content"],
  tech="virtual-time differential monitor over near-identical query pairs",
  note="Content is changed between queries so that a stale or cross-query hit is visible; pairs differ in one field at a time."),
P("C22", "Full data streaming delivers every live entry exactly once and ends",
  "A data stream request delivers every entry that is live throughout the request exactly once with its exact key and value, delivers no entry that was never stored, and terminates successfully, for any number of entries and any consumer speed.",
  ["schedules", "inputs"], "every content size, consumer pace and concurrent insert activity",
  "Tests never stream.",
  ["node/nodeservice.go", "data/newsync.go"],
  [("stream pump", "node/nodeservice.go DataStream"), ("scan", "data/newsync.go StreamAll")],
  ["entries received by streaming clients"],
  tech="exactly-once monitor over real streams with slow consumers, race detector on",
  note="Runs through a scripted server stream with injected send delays and through real gRPC; multiset comparison of what was sent; also checked: one sender at a time, nothing sent after the request ended."),
P("C23", "Repeated operation leaks no goroutines, native memory, files or descriptors",
  "After any number of searches (including ones that timed out), refreshes, streams and closed data sets, and once in-flight peers have answered, the number of goroutines, live native allocations, temporary index files and open descriptors returns to a bound independent of the number of operations performed.",
  ["histories", "fault_sequences"], "any number and mix of operations, including timed-out searches",
  "Tests run each operation a handful of times and measure nothing.",
  ["data/search.go", "data/newsync.go", "data/data.go", "annoyindex/annoygomodule_wrap.cxx"],
  [("draining of result channels", "data/search.go"), ("index swap frees the old index and its file", "data/newsync.go Process"), ("native result buffers", "data/search.go SearchAnnoy")],
  ["goroutine dumps, native heap statistics, directory listing, descriptor table after N and after k*N operations"],
  tech="resource-conservation monitor (growth over doubling workloads), LeakSanitizer",
  note="Compares resources after equal batches of operations; growth proportional to the number of operations is the violation. Bounded runs only."),
P("C24", "The native vector index answers correctly for all metrics and survives save/load",
  "Items read back from an index are exactly those added, reported distances equal the metric's distance (angular, Euclidean, Manhattan, dot product) between the items, neighbour lists are sorted by it, contain no duplicates, at most n items, and with an unlimited search budget are exactly the n nearest. An index that was saved and loaded (or built on disk) gives the same answers to such unlimited searches, a loaded index is read-only, and a missing or broken file is refused.",
  ["inputs"], "every item set, dimension, metric, number of trees, n and search budget",
  "The tests use a few hand-made three-dimensional items and one recall check.",
  ["annoyindex/annoylib.h", "annoyindex/annoygomodule.h", "annoyindex/annoygomodule_wrap.cxx", "annoyindex/annoyindex.go"],
  [("tree build and search", "annoyindex/annoylib.h"), ("wrapper", "annoyindex/annoygomodule_wrap.cxx")],
  ["results of index calls"],
  tech="reference-model monitor over random indexes, AddressSanitizer on",
  note="Brute-force oracle on generated indexes (dims 1-64, up to 1500 items), with and without save/load and on-disk build, also under AddressSanitizer."),
P("C25", "Periodic maintenance and retention never discard a data set in use",
  "Periodic maintenance removes a data set only when it holds no live entry and no reachable peer holds any; an unreachable peer never crashes or confuses it. A data set that holds live entries is kept for at least its retention period after every use (insert, info, stream or creation request), however long ago it was created, and one not used for its retention period is no longer listed.",
  ["histories", "fault_sequences"], "every history of creation, inserts, maintenance ticks, refreshes and accesses at any virtual times, with reachable or unreachable peers",
  "Tests are shorter than one maintenance period.",
  ["data/dataset.go", "data/data.go"],
  [("activity check", "data/data.go CheckIfActive"), ("retention refresh on access", "data/dataset.go Get"), ("maintenance", "data/dataset.go ReloadRuns")],
  ["acknowledged entries still readable after virtual hours of maintenance"],
  tech="virtual-time (synctest) reference-model monitor",
  note="Days of maintenance in virtual time with scripted peers; acknowledged entries must stay readable."),
P("C26", "Pooled peer connections are usable, shared safely and recover",
  "A connection obtained for a peer address is never one that was already shut down and always leads to that address; returning a connection never breaks calls of others still using it while the peer is up; and after a peer restarts, a bounded number of attempts suffices to reach it again. Concurrent use is race-free.",
  ["schedules", "fault_sequences"], "all interleavings of borrowing and returning connections to several peers that stop and restart",
  "Tests never use the pool directly.",
  ["util/connpool.go"],
  [("pool with state check and usage counter", "util/connpool.go ConnectionPool.Get/PutIfHealthy")],
  ["state and target of handed-out connections, outcome of calls"],
  tech="concurrent stress over real loopback servers with restart faults, race detector on",
  note="Calls identify the server they reached; failures while the server is up are violations. Recovery is a bounded number of attempts."),
P("C27", "Scoring functions compute what they are named for",
  "For all finite vectors of moderate magnitude, Euclidean and Manhattan distance and dot product are those of the common prefix, cosine similarity treats missing trailing components as zero and is zero for a zero vector, and angular similarity is one minus the angle over pi; all are symmetric and agree with double-precision evaluation up to single-precision rounding. Similarities stay in their ranges, identical vectors score best, and unknown names mean Euclidean distance.",
  ["inputs"], "all pairs of finite vectors of equal or different length",
  "Only benchmarks exist.",
  ["data/util.go", "data/search.go"],
  [("vector functions", "data/util.go"), ("name table", "data/search.go GetVectorComparisonFunction")],
  ["returned scores"],
  tech="differential monitor against float64 references on generated vectors",
  note="Error-bounded comparison with float64 references over generated pairs incl. unequal lengths, zeros and magnitudes from about 1e-6 to 1e8."),
P("C28", "The server process serves, restarts and shuts down cleanly",
  "A server started on an empty or existing data directory serves requests on its port, and after a termination signal exits successfully with its data-set configurations saved, so that a server restarted on the same directory knows every data set with its latest configuration. Files in the data directory that the server did not create are untouched, and it announces itself to every given service with its data sets and its advertised addresses (from flag, environment or configuration file), those without a port getting the server's port.",
  ["histories", "fault_sequences"], "every sequence of requests, restarts, signals and failed starts",
  "The command and server packages have no tests.",
  ["cmd/serve.go", "server/veriserviceserver.go", "data/dataset.go", "node/node.go"],
  [("server start, signal handling", "server/veriserviceserver.go RunServer"), ("index save on close", "data/dataset.go Close")],
  ["process exit status, directory content, responses after restart"],
  tech="black-box process monitor over start/signal/restart sequences",
  note="Drives the built binary over loopback with short generated histories of lives; announcements received by scripted services are compared with a model. A second monitor waits for the server's own periodic synchronization with two scripted members and checks that all entries are handed over on termination."),
P("C29", "Cluster membership converges and follows the announcements",
  "Nodes that are connected through service addresses, in whatever shape and whether or not they advertise an address, discover each other within a bounded number of rounds of joining and gossip; afterwards every node has every data set any of them has, in its newest configuration, and every other node as a source of it. This also holds after configuration updates, for nodes that join later and for nodes that come back. A peer that keeps announcing itself stays in the peer table and among the sources of its data sets without a gap, and one that has been silent for twenty minutes is in neither.",
  ["histories", "configurations", "schedules"], "every connected graph of service addresses, start order and history of announcements, stops and returns",
  "The cluster test starts nodes and logs their peers; it asserts nothing and ends within seconds.",
  ["node/node.go", "node/nodeservice.go", "data/data.go", "data/dataset.go"],
  [("joining and gossip", "node/node.go JoinToPeers/SyncWithPeers"), ("own address feedback", "node/nodeservice.go Join/SendJoinRequest"), ("source registration", "data/data.go AddSource")],
  ["peer tables, sources and configurations of live nodes and of a node in virtual time"],
  tech="virtual-time membership model and live loopback clusters with convergence oracle, race detector on",
  note="Rounds are driven by the monitor; the bound is 14 rounds for up to six nodes. Long silence is observed in virtual time at one node with scripted announcements."),
P("C30", "Background rebalancing spreads every data set over its members",
  "Members that know each other keep exchanging entries in the background as long as their contents differ clearly: within an hour or two after content arrived at any member, and without any further request, every reachable member with room for it holds a fair share (at least an eighth) of the entries, with a center close to that of the whole content (within 40% of its radius), and together they still hold everything. The same holds again when different content arrives later and for members that could not be reached at first.",
  ["histories", "configurations"], "every number of members, content, capacity configuration and history of arrivals and outages",
  "Tests run single data sets without sources, for seconds.",
  ["data/data.go", "data/newsync.go", "data/sync.go"],
  [("how much to exchange with whom", "data/data.go DataSourceDiffMap"), ("sampling and transfer", "data/newsync.go Process"), ("background refresh", "data/data.go Run")],
  ["content of every member after virtual hours of background work"],
  tech="virtual-time (synctest) convergence monitor over real members",
  note="Members are real data sets linked by scripted connections that copy what passes; hours of their own background refreshes run in virtual time. Shares and centers have generous bounds because transfers are random samples."),
]

def emit():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["qtext"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"],
                             "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": p["hook"]}}
            if p["state"]:
                d["anchors"]["state"] = p["state"]
            f.write(json.dumps(d) + "\n")
    try:
        from manifest import build
        build(PROPS)
    except ImportError:
        pass

if __name__ == "__main__":
    sys.path.insert(0, HERE)
    emit()
