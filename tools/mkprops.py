#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            observe_at=observe or [], hook_needed=None)))

prop("C01", "Every started transaction completes exactly once",
 "Whatever ends it (an explicit end, several ends at once, ending the same context twice, a chained goroutine finishing, or the stuck-transaction reaper), a started transaction leaves the set of active transactions exactly once, is counted exactly once in the service statistics (as an error if and only if it was in error), and produces at most one transaction record: exactly one when it is not sampled away. No record is ever produced for a transaction that has not ended, and a transaction that has not ended stays in the active set (up to its documented capacity of 10,000).",
 ["schedules","programs","histories"],
 "for every program over the tracing API (start, nested start, end, forced end, chained goroutines) and every interleaving of the ends with each other and with the reaper",
 "The existing tests start and end one transaction and assert nothing about records; concurrent or repeated ends and the reaper are never exercised, and one schedule of a race proves nothing about the others.",
 ["scouterx/strace/tracemain.go","scouterx/strace/tctxmanager/tctxmanager.go","scouterx/counter/serviceMetering.go"],
 [("endAnyServiceOfTraceContext: closed flag, removal from the active map, metering, record","scouterx/strace/tracemain.go"),("End/Start of the active map","scouterx/strace/tctxmanager/tctxmanager.go")],
 [("txidMap","active transactions","scouterx/strace/tctxmanager/tctxmanager.go"),("TraceContext.Closed","the transaction has been ended","scouterx/netio/tracecontext.go")],
 ["XLOG packs on the collector's UDP socket","OBJECT_ACTIVE_SERVICE_LIST","service counters"])
prop("C02", "A transaction record says what the traced program did",
 "The record of a transaction carries the values the program established before it ended: the last service name set, the first error unless one was forced afterwards (a forced one replaces it), the response status, the number, total time and first error of its finished outgoing calls, the kind of transaction, the client address (from the configured header if present, without port), user agent, referer and the elapsed time from start to end. Every operation on one transaction affects that transaction's record only.",
 ["programs","inputs","configurations"],
 "for every sequence of tracing API calls on one or several interleaved transactions, and every request (headers, address, path, method) they start with",
 "No test reads a record; which of several errors, names, statuses or calls ends up in it depends on the order of operations, which one straight-line test cannot cover.",
 ["scouterx/strace/tracemain.go","scouterx/netio/tracecontext.go","scouterx/common/util/iputil.go"],
 [("StartHttpService/StartService/MarkAsError*/SetServiceNameForcibly/EndApiCall","scouterx/strace/tracemain.go"),("ToXlog","scouterx/netio/tracecontext.go")],
 None, ["XLOG packs on the collector's UDP socket"])
prop("C03", "Transaction identity and causality are consistent across calls and services",
 "Transaction ids are never reused within a process and differ between processes, even ones started in the same second; a root transaction is its own root id, and a chained child records its parent as caller, its parent's root id as root, and the parent's profile contains a call step naming that child. An outgoing call with propagation adds headers that carry exactly this transaction's root id, its id, the id of the new outgoing call step and this agent's object hash, in the collector's text form of ids, and the call ids in headers and profile agree.",
 ["programs","schedules","histories"],
 "for every tree of services, chained goroutines, inherited services and outgoing calls, in any interleaving and any number of processes",
 "Tests never compare ids across records, headers and profile steps, and id uniqueness is a statement about all runs and about pairs of processes.",
 ["scouterx/strace/tracemain.go","scouterx/netio/tracecontext.go","scouterx/common/util/keygen/keygen.go","scouterx/common/util/hexautil.go"],
 [("startService/startChildGoroutineService/StartApiCallWithPropagation","scouterx/strace/tracemain.go"),("Next","scouterx/common/util/keygen/keygen.go"),("IntToXlogString32","scouterx/common/util/hexautil.go")],
 None, ["XLOG and XLOG_PROFILE packs","request headers"])
prop("C04", "A profile delivers each completed step exactly once, correctly numbered",
 "For a transaction whose profile is not sampled away, every step completed before its end is delivered exactly once under its transaction id with a unique index, indexes being handed out consecutively in the order steps begin; each profile record holds a run of consecutively completed steps in completion order, and as long as steps are closed in the reverse order of their opening the parent of a step is the innermost method or call step open when it began. No profile record holds more steps than the configured maximum, full buffers are delivered when they fill, and the step count and byte size in the transaction's record equal what was delivered.",
 ["programs","schedules","configurations"],
 "for every sequence of step operations (including several goroutines using one transaction), any nesting, any length relative to the buffer and record limits, and every value of those limits",
 "Tests add a handful of steps and look at none; the arithmetic of buffer and record boundaries and the interleaving of concurrent adders are exactly what samples miss.",
 ["scouterx/netio/profilecollector.go","scouterx/netio/dataproxy.go","scouterx/strace/tracemain.go","scouterx/common/netdata/step.go"],
 [("Push/Pop/Add/Process/Close","scouterx/netio/profilecollector.go"),("SendProfile","scouterx/netio/dataproxy.go")],
 [("steps,pos,currentLevel,parentLevel","buffered steps and numbering","scouterx/netio/profilecollector.go")],
 ["XLOG_PROFILE and XLOG packs"])
prop("C05", "Every text hash the collector receives can be resolved",
 "Whenever the agent turns a text (service, method, call, error, message, referer, user agent, object name, login, description, stack element) into the hash it will refer to it by, the record translating that hash has been accepted for sending since the last cache reset asked for by the collector or the last eviction of it; if the full send queue refused it, it is offered again at the next use. In sequential use a text is not sent again while it is remembered, the remembered set is bounded, and empty texts are hash 0 and never sent.",
 ["programs","histories","fault_sequences","schedules"],
 "for every history of text references of all kinds, cache resets, cache overflows and full-queue episodes, from any number of goroutines",
 "The tests never fill the queue or the caches and never look at which text records leave the agent; the guarantee is about histories with loss.",
 ["scouterx/netio/dataproxy.go","scouterx/common/structure/lra/lra.go","scouterx/netio/udpsender/udpsender.go","scouterx/common/util/hashutil.go"],
 [("Send*: sent-cache then queue","scouterx/netio/dataproxy.go"),("AddPack","scouterx/netio/udpsender/udpsender.go"),("OBJECT_RESET_CACHE","scouterx/netio/tcpclient/handlers.go")],
 [("*Sent","hashes whose text was sent","scouterx/netio/dataproxy.go")],
 ["TEXT packs on the collector's UDP socket"])
prop("C06", "Accepted packs reach the collector intact, once, in bounded datagrams",
 "Every pack accepted for sending is put on the wire exactly once, byte for byte recoverable by the collector from single, batched or fragmented datagrams, for every mixture of pack sizes and every datagram limit that UDP can carry (up to 65,000 bytes, a pack needing at most 32,767 fragments); no datagram carries more bytes of packs (its header aside) than the limit in force and batch counts and fragment numbers are exact. Queued packs leave in the order they were accepted, a pack is dropped only when the queue is full, and offering a pack never blocks the caller.",
 ["inputs","histories","schedules","configurations"],
 "for every sequence of pack sizes (smaller, equal and larger than the limit), every datagram limit, queue length and interleaving of producers with the sender",
 "Tests send one or two small packs to nowhere; batching and fragmentation boundaries and queue-full races are never reached.",
 ["scouterx/netio/udpsender/udpsender.go","scouterx/netio/udpclient/udpclient.go","scouterx/common/factory/channelfactory/channelfactory.go"],
 [("AddPack/AddBuffer/SendPackDirect/SendDirect/send","scouterx/netio/udpsender/udpsender.go"),("WriteBuffer/WriteBufferList/writeMTU","scouterx/netio/udpclient/udpclient.go")],
 [("udpChannel","bounded FIFO of encoded packs","scouterx/common/factory/channelfactory/channelfactory.go")],
 ["datagrams on the collector's UDP socket"])
prop("C07", "The collector's command channel answers every request, in order, and survives",
 "After announcing itself with its object hash, the agent answers every request frame on the command connection with exactly one complete response, in request order, however the bytes are split into segments; a request it does not know gets an empty response. Malformed requests, oversized counts, disconnects and timeouts never crash or wedge the agent: it answers or drops the connection and then connects again.",
 ["inputs","fault_sequences","histories","schedules"],
 "for every sequence of requests (known, unknown, malformed, truncated), every segmentation of the byte stream and every disconnect point",
 "There is no test of the command channel at all; its guarantees are over all byte streams and fault points.",
 ["scouterx/netio/tcpclient/tcpclient.go","scouterx/netio/tcpclient/tcpmanager.go","scouterx/netio/tcpclient/handlers.go","scouterx/common/netdata/datainputx.go"],
 [("Process loop","scouterx/netio/tcpclient/tcpclient.go"),("startTcp reconnect loop","scouterx/netio/tcpclient/tcpmanager.go"),("handle","scouterx/netio/tcpclient/handlers.go")],
 None, ["the collector's TCP socket"])
prop("C08", "Bounded caches are linearizable bounded FIFO maps",
 "Every concurrent history of operations on a cache is explained by some sequential order of them on a map of bounded size (at least 1) in which adding a present key keeps its position (the least-recently-added map takes the new value, the others keep the old one), a new key evicts the oldest insertion when full, and a removed key is forgotten entirely; the size never exceeds the bound. A listing of values returns only values that were present at some time during the call and every value present throughout it, and no combination of operations deadlocks.",
 ["schedules","histories"],
 "for every interleaving of every set of operation sequences on every cache variant (map, set, least-recently-added) and any bound",
 "The existing tests are one sequential history per cache and never call most operations; linearizability and deadlock freedom are over all interleavings.",
 ["scouterx/common/structure/lra/lra.go","scouterx/common/structure/cachemap/cachemap.go","scouterx/common/structure/cachemap2/cachemap2.go","scouterx/common/structure/cacheset/cacheset.go"],
 [("Add/Remove/Get/Contains/GetValues/Size/Clear under the package lock","scouterx/common/structure")],
 None, ["return values of the operations"])
prop("C09", "Published service statistics equal the last N seconds of completions",
 "At any moment the throughput, mean response time and error rate reported for the last N seconds (N up to 300) are exactly those of the transactions completed in the current second and the N-1 before it, each counted in the second it completed, under any concurrency and after idle gaps of any length; the same holds for averaged values such as the active-transaction count. The counter records sent to the collector carry these values under their own labels.",
 ["histories","schedules","inputs"],
 "for every history of completions and reads, every clock advance between them (including gaps around and beyond the window), every window length and concurrent writers and readers",
 "The metering tests only print; wrap-around of the window, idle gaps and concurrent access cannot be reached in real time by a unit test.",
 ["scouterx/counter/metering.go","scouterx/counter/serviceMetering.go","scouterx/counter/valueMetering.go","scouterx/counter/collector.go","scouterx/task/countertask/countertask.go"],
 [("getPosition/SearchOnHandler ring of one-second buckets","scouterx/counter/metering.go"),("Add/GetAllCounter","scouterx/counter/serviceMetering.go")],
 [("table,pos,time","ring of one-second buckets","scouterx/counter/metering.go")],
 ["GetAllCounter results","PERF_COUNTER packs"])
prop("C10", "Sampling decides exactly as configured which records and profiles are sent",
 "A transaction in error is always recorded in full (one matching a discard pattern only if showing such errors is enabled); otherwise, if its name matches a discard pattern nothing is sent; otherwise the first applicable rule (exclusion, patterned rule 1, 2, 3, general rule) decides by its own elapsed-time thresholds and percentages, keeping the transaction exactly with the configured probability, and a sampled-out transaction loses its profile only, or also its record if it is a root transaction and the rule is not profile-only. A configuration change takes effect for the transactions that end after it.",
 ["inputs","configurations","histories"],
 "for every combination of sampling settings, service name, elapsed time (including thresholds), error state, root or child, and random draw, and every sequence of configuration changes",
 "No test sets a sampling option and checks what is sent; the decision table has thousands of cells and a random input.",
 ["scouterx/strace/xlogsampler.go","scouterx/strace/tracemain.go","scouterx/common/netdata/xlogpack.go"],
 [("eEvaluateXLogDiscard, sampling*","scouterx/strace/xlogsampler.go"),("findXLogDiscard and the send decision","scouterx/strace/tracemain.go")],
 None, ["XLOG and XLOG_PROFILE packs"])
prop("C11", "Service-name patterns match exactly the names their wildcards describe",
 "A comma-separated list of patterns matches a service name exactly when some pattern in it does, where '*' stands for any possibly empty run of characters and every other character for itself, for patterns with a leading, a trailing and at most one inner '*'. The empty name matches nothing.",
 ["inputs"],
 "for every list of such patterns and every service name",
 "The tests check a few names per pattern form; overlapping and repeated occurrences of the literal parts are exactly what they omit, and the list form is untested.",
 ["scouterx/common/util/strmatch.go","scouterx/strace/xlogsampler.go"],
 [("NewStrMatch/include","scouterx/common/util/strmatch.go"),("CommaSeparatedChainedStrMatcher","scouterx/common/util/strmatch.go")],
 None, ["match results","which records are sampled"])
prop("C12", "Configuration values, reloads and notifications are consistent",
 "Each option's effective value is the one in the configuration file if it is set there, else the process environment's, else the default; an option the file leaves empty has its default (an empty or malformed environment value counts as none), a number that is not valid (a transaction time beyond 32 bits included) (or, for the four buffer sizes, not positive) yields the default, true/1/yes/on are true and anything else false, and a file that cannot be parsed leaves the previous values in force. After a file change and a refresh, every observer runs exactly once and sees the new values, the listing sent to the collector shows exactly the values in force, and a configuration saved from the collector is stored verbatim and in force before the save is confirmed.",
 ["configurations","histories","inputs","fault_sequences"],
 "for every content of file and environment (including malformed ones) and every history of edits, refreshes and remote saves",
 "The only test loads one string through the parser library; precedence, reload, notification and malformed input are all untested.",
 ["scouterx/conf/configure.go","scouterx/conf/exthandler.go","scouterx/conf/opserver.go","scouterx/netio/tcpclient/handlers.go"],
 [("Refresh/addToConf/intOf/boolOf/stringOf","scouterx/conf/configure.go"),("SaveConfigText","scouterx/conf/exthandler.go"),("confChangeNotify","scouterx/conf/opserver.go")],
 [("lastModified","modification time of the file last loaded","scouterx/conf/configure.go")],
 ["fields of the configuration","LIST_CONFIGURE_WAS/GET_CONFIGURE_WAS/SET_CONFIGURE_WAS responses"])
prop("C13", "Tracing never breaks the host program",
 "No call of the tracing API panics, blocks or returns an unusable context, whatever contexts, requests, steps or strings it is given and whatever the configuration, network or collector does; an untraced or ended context makes calls no-ops. A traced goroutine's function runs exactly once with a usable context, and a panic of the user's own code propagates unchanged.",
 ["inputs","configurations","fault_sequences","programs"],
 "for every sequence of API calls with nil, foreign, ended or malformed arguments, every configuration value and every state of the collector (absent, unresolvable, closed)",
 "The tests make well-formed calls in one default configuration; this is a statement about all arguments, configurations and faults.",
 ["scouterx/common/panic.go","scouterx/strace/tracemain.go","scouterx/conf/configure.go","scouterx/netio/profilecollector.go","scouterx/netio/udpclient/udpclient.go"],
 [("ReportScouterPanic deferred in each entry point","scouterx/common/panic.go"),("nil checks of contexts","scouterx/strace/tracemain.go")],
 None, ["process exit status","returned contexts"])
prop("C14", "Dump-file commands stay inside the dump directories and are faithful",
 "The collector's dump commands (list, stream, download, delete) read, list and delete files only inside the agent's own dump directories, whatever name they are given, and deletion removes exactly the named file. Listings show exactly the dump files present with their sizes, a download or stream delivers exactly the file's content in order, a requested goroutine dump is on disk and complete (up to the 64 MB the runtime gives) when it is confirmed and holds nothing else, and a profile that is asked for is in its directory and whole once it has been taken.",
 ["inputs","histories","fault_sequences"],
 "for every file name in a request (absolute, with parent references, empty, directories), every file size relative to the transfer chunk and every history of dumps, deletes and listings",
 "There is no test of these commands; confinement is a statement about all names.",
 ["scouterx/dump/dump.go","scouterx/netio/tcpclient/handlers.go"],
 [("ListDumpFiles/StreamDumpFileContents/DownloadBinaryDumpFiles/DeleteBinaryDumpFiles/HeavyAllStackTrace","scouterx/dump/dump.go")],
 None, ["command responses","the file system"])
prop("C15", "The wire format round-trips and its decoder is total",
 "Every value, step and record the agent writes is decoded to the same content by an independent reader of the collector's format and, where the agent has one, by the agent's own reader, in the collector's byte format (length-prefixed decimals and blobs in their shortest form), for all sizes and values of every field. Decoding arbitrary or truncated bytes, delivered in any pieces, ends with a value or an error: it never panics, never loops and never returns content that the bytes do not hold.",
 ["inputs","fault_sequences"],
 "for every value tree, every integer and string length at and around every encoding boundary, every byte string and every way a reader can return it in pieces",
 "The tests round-trip a few values of a few types; boundary lengths, nested containers, truncation and short reads are not covered.",
 ["scouterx/common/netdata/dataoutputx.go","scouterx/common/netdata/datainputx.go","scouterx/common/netdata/mapvalue.go","scouterx/common/netdata/listvalue.go","scouterx/common/netdata/mappack.go","scouterx/common/netdata/xlogpack.go"],
 [("Write*/Read*","scouterx/common/netdata"),("CreateValue/CreatePack","scouterx/common/netdata/valuecreator.go")],
 None, ["encoded bytes","decoded values and errors"])
prop("C16", "Active-transaction views and stuck handling reflect reality",
 "The active-transaction list and the per-transaction detail sent to the collector contain exactly the transactions running at that time (the scan is limited to 2,000) with their name, id, client address and age, and the three activity counts classify each of them by its age against the configured thresholds. A transaction is treated as stuck only when it is older than the configured limit: every such transaction then raises an alert naming it (at the configured level) and, if removal is enabled, is ended with an error, while younger ones are left untouched.",
 ["histories","configurations","schedules"],
 "for every set of running transactions, every age relative to the thresholds, every setting of the options and every interleaving of starts and ends with the scan",
 "Nothing tests these views; ages of minutes and hundreds of concurrent transactions do not occur in a unit test.",
 ["scouterx/strace/tctxmanager/tctxmanager.go","scouterx/netio/tcpclient/handlers.go","scouterx/strace/tracemain.go","scouterx/task/countertask/countertask.go"],
 [("GetActiveCount","scouterx/strace/tctxmanager/tctxmanager.go"),("GetActiveList/GetGoroutineDetail","scouterx/netio/tcpclient/handlers.go"),("endStuckServiceForcibly","scouterx/strace/tracemain.go")],
 None, ["OBJECT_ACTIVE_SERVICE_LIST/OBJECT_THREAD_DETAIL responses","ActiveSpeed counter","ALERT packs"])
prop("C17", "The agent follows changes of collector and of its own identity",
 "After the collector's address or port or the agent's name or type is changed in the configuration, the agent soon sends everything to the new collector and nothing more to the old one, announces and registers under the new identity (name text, heartbeat and command-channel handshake all agree on one object hash), and records sent afterwards carry the new hash. While nothing changes it keeps sending regular heartbeats, keeps one command connection, and reconnects when it is lost.",
 ["histories","configurations","fault_sequences"],
 "for every sequence of changes of address, ports, name and type, and of collector outages",
 "No test changes the configuration of a running agent or provides a collector to observe it.",
 ["scouterx/netio/udpsender/udpsender.go","scouterx/netio/tcpclient/tcpclient.go","scouterx/netio/tcpclient/tcpmanager.go","scouterx/task/agenttask/agenttask.go","scouterx/conf/configure.go","scouterx/agent.go"],
 [("reloadUdpSender","scouterx/netio/udpsender/udpsender.go"),("Process loop condition and startTcp","scouterx/netio/tcpclient"),("resetObjNameAndType, objNameChangeObserver","scouterx/conf/configure.go")],
 None, ["the collectors' UDP and TCP sockets"])
prop("C18", "Counter records describe the running program",
 "Each real-time counter record carries, under its own label, the number of goroutines, the heap in use and the cgo calls of the program at the time it was taken, and the garbage collections and their pause in milliseconds per second since the previous real-time record. Over any stretch of records no collection is lost or counted twice, whatever else is sent in between and however irregularly the records come. Real-time records keep coming, and five-minute records beside them.",
 ["histories","schedules"],
 "for every sequence of collections, goroutines and allocations of the program and every time between two records",
 "The counter tests print one reading; nothing compares a rate with what happened between two records, and the loops that send them are never run.",
 ["scouterx/counter/gocounter/gocounter.go","scouterx/task/countertask/countertask.go","scouterx/counter/const.go"],
 [("GetGoCounter","scouterx/counter/gocounter/gocounter.go"),("getAllCounterOnPack and its loop","scouterx/task/countertask/countertask.go")],
 [("prevGoCounter","the previous reading","scouterx/task/countertask/countertask.go")], ["counter records on the wire"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
