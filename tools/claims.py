CLAIMS.update({
 "C01": (T + "programs generated from the specification and randomised concurrent programs run on the real agent; every history (API calls, packs on the wire, active list, metering) validated against it",
         "The end protocol (claim, close, registry, send decision, metering, reaper) is checked exhaustively for 2-3 transactions with 2-3 enders, with a refuted broken variant and a liveness variant; bound to the code by >1000 recorded histories under PCT/random-walk/free schedules."),
 "C02": (T + "API programs generated from the specification (and random ones) run on the real agent; the records on the wire validated against it",
         "Record content model exhaustive for 2 transactions and short programs; bound to the code by generated and random programs, sequential and concurrent."),
 "C03": (T + "trees of services, goroutines and outgoing calls run on the real agent in several processes; ids in records, steps and headers validated against it",
         "Identity model exhaustive for 2 processes and small trees; the code is bound by generated and random trees under controlled schedules, and by processes started in one frozen second."),
 "C04": (T + "step programs generated from the specification and random ones (one or several goroutines, all limits) run on the real agent; delivered profiles validated against it",
         "The collector/buffer design is checked exhaustively with small limits and 2-3 adders, with a refuted variant; bound by recorded deliveries."),
 "C05": (T + "histories of text uses, resets, evictions and full-queue episodes of the real agent validated against it",
         "The remember-after-accept design is checked exhaustively for 2 threads, 2 texts, bounded queue, with refuted variants; bound by recorded histories under controlled schedules."),
 "C06": (T + "offers and datagrams of the real agent (held and running sender, every size class, changing limits, concurrent producers) validated against it",
         "The queue/grouping/fragmenting design is checked exhaustively for 4-5 packs with differing sender and client limits, with a refuted overtaking variant and a liveness check; bound by recorded offers and datagrams."),
 "C09": (T + "histories of the real meters (sequential, and concurrent under enumerated and randomised schedules, clock steps up to weeks) and counter records of the running agent validated against it",
         "The ring-of-buckets design is checked exhaustively with a small ring, 2 threads and all clock advances, with two refuted variants; bound by recorded histories with the real ring of 301 buckets."),
 "C10": (T + "every cell tried on the real agent under 100 equally spaced draws (random configurations, thresholds, roots and children, errors, changes under way); outcomes on the wire validated against it",
         "The decision design is checked exhaustively over >1M cells against the property's table, with a refuted variant; bound to the code by >100,000 transactions per run."),
 "C11": (T + "answers of the real matcher for every pattern up to 6 characters against every name up to 7 over two letters, and for random realistic lists, validated against it",
         "The matching design is checked exhaustively against the meaning of the wildcards, with a refuted variant; the real matcher is enumerated over the same space."),
 "C15": (T + "bytes written by the real encoders and answers of the real decoders (whole, cut, mangled and arbitrary bytes in any pieces), and every pack of a running agent, validated against the format specification",
         "The format (values, records, steps) is specified operationally as encoder and reader; round trip, prefix-freedom and totality are checked over 170,000 values and byte strings, with three refuted encoders; every byte of the real writer and every answer of the real reader is compared with it."),
 "C07": (T + "behaviours of the specified collector (requests of all kinds in pieces, cuts, stalls) done to the real agent over TCP; every session validated against it",
         "The design of the agent's end (connect, greet, read a frame, work, answer, give up) is checked exhaustively for safety and liveness against a collector that splits, cuts, stalls, sends malformed and endless requests and moves, with four refuted variants; sessions are generated from it and their histories validated."),
 "C12": (T + "configuration files, environments and histories of edits (older and newer, deleted, malformed, directories, while being read), refreshes (several at once, the agent's own) and remote saves done to the real agent; values, listings and observers validated against it",
         "Values are specified down to characters (escapes are rendered, references, numbers at every limit); the reload design is checked exhaustively for a refreshing and a saving thread beside edits, with four refuted variants; bound by some 3,500 recorded events per run over all 63 options."),
 "C13": (T + "programs generated from the specification and random ones (broken contexts and requests, hostile texts, panics of the program's own) run on the real agent with every configuration, absent, mute and wild collectors, a full queue and no log directory; the outcome of every call, goroutine and deferred end validated against it",
         "The guard around tracing calls is checked exhaustively (calls, nested goroutines, user panics, a full queue, a refused collector) with five refuted variants and a liveness check; bound by some 27,000 recorded events per run."),
 "C14": (T + "behaviours of the specified directory (names, files that grow, vanish and are replaced while they are listed or sent, full and forbidden directories) done to the real agent over TCP with files placed around its directories; every answer and every changed file validated against it",
         "Where a name leads and what a file was during a request is specified; the command design (resolve, list and stat, open and stream, delete, dump and flush) is checked exhaustively beside changing files for every name of up to 2 to 4 components, with eight refuted variants; sessions are generated from it."),
 "C16": (T + "behaviours of the specified views (starts, ends, scans, lists, the clock stepped onto the edges of the thresholds) done to the real agent, views taken over TCP, from its counter records and between controlled schedules of concurrent starts and ends; every view, alert and record validated against the specification",
         "What a view may say, given what certainly and what possibly ran during it, is specified; the design (a set that changes under a scan and a listing) is checked exhaustively against it with eight refuted variants; sessions are generated from it."),
 "C17": (T + "behaviours of the specified surroundings (changes of address, ports, name and type through the file and over TCP, collectors that go away and come back, lost connections, connections that take long, no descriptors left) done to the real agent before three collectors; all they receive is validated against the specification",
         "The design (a client that is exchanged under records on their way, a command loop that dials, greets and looks at the configuration between requests) is checked exhaustively for safety and liveness with nine refuted variants; some 500 histories generated from it and random ones are validated per run."),
 "C18": (T + "collections, goroutines, held memory and clock steps done to a program under control; every counter record its agent sends validated against the specification",
         "The reading task (clock, statistics, report, keep) is checked exhaustively beside collections and the five-minute task with four refuted variants; some 3,500 counter records per run are compared exactly with what happened between them."),
})
