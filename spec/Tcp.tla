----------------------------------- MODULE Tcp -----------------------------------
(* The command channel: what the collector asks and what a response to it is.    *)
(* A response is what lies between two ends of response: a sequence of packs (or  *)
(* of blobs, for the contents of a file).                                          *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Magic == "cafe1002"
Empty == {"KEEP_ALIVE", "TRIGGER_BLOCK_PROFILE", "TRIGGER_MUTEX_PROFILE"}
Blobs == {"OBJECT_DUMP_FILE_DETAIL", "OBJECT_DOWNLOAD_HEAP_DUMP"}
(* the keys an answer carries: its lists (as long as each other) and other values *)
ActiveLists == {"id", "elapsed", "service", "name", "txid", "ip", "stat", "cpu", "sql", "subcall"}
ListsOf == ("OBJECT_DUMP_FILE_LIST" :> {"name", "size", "last_modified"}) @@ ("OBJECT_LIST_HEAP_DUMP" :> {"name", "size"})
           @@ ("GET_CONFIGURE_WAS" :> {"configKey"}) @@ ("LIST_CONFIGURE_WAS" :> {"key", "value", "default"})
           @@ ("OBJECT_ACTIVE_SERVICE_LIST" :> ActiveLists)
PlainOf == ("TRIGGER_THREAD_DUMP" :> {"name"}) @@ ("GET_CONFIGURE_WAS" :> {"agentConfig"}) @@ ("SET_CONFIGURE_WAS" :> {"result"})
           @@ ("OBJECT_CALL_CPU_PROFILE" :> {"success", "msg"}) @@ ("OBJECT_CALL_BLOCK_PROFILE" :> {"success", "msg"})
           @@ ("OBJECT_CALL_MUTEX_PROFILE" :> {"success", "msg"}) @@ ("OBJECT_DELETE_HEAP_DUMP" :> {"success", "msg"})
           @@ ("OBJECT_ACTIVE_SERVICE_LIST" :> {"complete"}) @@ ("OBJECT_THREAD_DETAIL" :> {"Thread Name", "State", "Stack Trace"})
           @@ ("CONFIGURE_VALUE_TYPE" :> {"obj_name"}) @@ ("CONFIGURE_DESC" :> {"obj_name"})
Known == Empty \cup Blobs \cup DOMAIN ListsOf \cup DOMAIN PlainOf \cup {"OBJECT_RESET_CACHE"}
Or(f, x, d) == IF x \in DOMAIN f THEN f[x] ELSE d

(* q: a request [cmd, map (its parameter is a map), id (what an echo repeats)];   *)
(* r: a response [n: number of packs or blobs, map: its only pack is a map,        *)
(*    keys, lists, equal: the lists are equally long, id]                          *)
Fits(q, r) ==
    IF q.cmd \notin Known \/ q.cmd \in Empty THEN r.n = 0
    ELSE IF q.cmd \in Blobs THEN TRUE
    ELSE IF q.cmd = "OBJECT_RESET_CACHE" THEN r.n = 1 /\ r.id = q.id
    ELSE \/ /\ r.n = 1 /\ r.map
            /\ Or(ListsOf, q.cmd, {}) \subseteq r.lists /\ Or(PlainOf, q.cmd, {}) \subseteq r.keys /\ r.equal
         \/ ~q.map /\ r.n \in {0, 1}     \* a parameter that makes no sense
=============================================================================
