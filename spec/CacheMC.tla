------------------------------- MODULE CacheMC -------------------------------
(* The design behind the caches, step by step: a table and an insertion list   *)
(* guarded by one readers/writer lock with writer preference; a listing that   *)
(* gives the lock up between entries.  Checked: when nobody writes, table and  *)
(* list agree and are bounded; every result is the one of the abstract cache   *)
(* at the operation's instant; a listing respects may/must; nobody deadlocks.  *)
(* Broken, one decision taken wrongly (each must be refuted):                  *)
(*   nested   Empty asks for the read lock again while it holds it             *)
(*   stays    Remove leaves the key in the insertion list                      *)
(*   renews   Add of a present key moves it to the end of the list             *)
(*   outside  Add looks for the key before it takes the lock                   *)
(*   forgets  eviction takes the key from the list, not from the table         *)
(*   stops    a listing ends when an entry it took already is gone             *)
EXTENDS Cache, Integers
CONSTANTS Threads, Keys, Bound, MaxOps, Variant, Broken
VARIABLES table, lst, writer, readers, waiting, abs, pc, op, loc, n
vars == <<table, lst, writer, readers, waiting, abs, pc, op, loc, n>>

NoOp == [o |-> "none", k |-> "", v |-> ""]
Empty == [new |-> FALSE, res |-> Nil, want |-> Nil, todo |-> {}, got |-> {}, may |-> {}, must |-> {}, depth |-> 0]
Writes == {"add", "remove", "clear"}

Init == /\ table = <<>> /\ lst = <<>> /\ abs = <<>>
        /\ writer = 0 /\ readers = [t \in Threads |-> 0] /\ waiting = {}
        /\ pc = [t \in Threads |-> "idle"] /\ op = [t \in Threads |-> NoOp]
        /\ loc = [t \in Threads |-> Empty] /\ n = [t \in Threads |-> 0]

Readers == {t \in Threads : readers[t] > 0}

Begin(t) == /\ pc[t] = "idle" /\ n[t] < MaxOps
            /\ \E o \in {"add", "remove", "clear", "get", "contains", "size", "empty", "values"}, k \in Keys :
                 /\ o \in {"clear", "size", "empty", "values"} => k = CHOOSE x \in Keys : TRUE
                 /\ op' = [op EXCEPT ![t] = [o |-> o, k |-> k, v |-> k \o ToString(t) \o ToString(n[t])]]
                 /\ pc' = [pc EXCEPT ![t] = IF o \in Writes THEN "wait" ELSE "rlock"]
                 /\ waiting' = IF o \in Writes THEN waiting \cup {t} ELSE waiting
            /\ loc' = [loc EXCEPT ![t] = [Empty EXCEPT !.may = EntriesOf(abs), !.must = EntriesOf(abs), !.new = op'[t].k \notin DOMAIN table]]
            /\ n' = [n EXCEPT ![t] = @ + 1]
            /\ UNCHANGED <<table, lst, writer, readers, abs>>

WLock(t) == /\ pc[t] = "wait" /\ writer = 0 /\ Readers = {}
            /\ writer' = t /\ waiting' = waiting \ {t}
            /\ pc' = [pc EXCEPT ![t] = "w1"]
            /\ UNCHANGED <<table, lst, readers, abs, op, loc, n>>

(* first half of a write: the list; second half: the table (and the instant)  *)
W1(t) == /\ pc[t] = "w1"
         /\ lst' = LET k == op[t].k IN
                CASE op[t].o = "add" -> IF Broken = "renews" /\ k \in DOMAIN table THEN Append(SelectSeq(lst, LAMBDA x : x # k), k)
                                         ELSE IF (IF Broken = "outside" THEN ~loc[t].new ELSE k \in DOMAIN table) THEN lst ELSE Append(lst, k)
                  [] op[t].o = "remove" /\ Broken = "stays" -> lst
                  [] op[t].o = "remove" -> SelectSeq(lst, LAMBDA x : x # k)
                  [] OTHER -> <<>>
         /\ pc' = [pc EXCEPT ![t] = "w2"]
         /\ UNCHANGED <<table, writer, readers, waiting, abs, op, loc, n>>
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
W2(t) == /\ pc[t] = "w2"
         /\ LET k == op[t].k
                put == [x \in DOMAIN table \cup {k} |-> IF x = k /\ (Variant = "lra" \/ x \notin DOMAIN table) THEN op[t].v ELSE table[x]]
            IN CASE op[t].o = "add" ->
                    /\ lst' = IF Len(lst) > Bound THEN Tail(lst) ELSE lst
                    /\ table' = IF Len(lst) > Bound /\ Broken # "forgets" THEN Without(put, Head(lst)) ELSE put
                 [] op[t].o = "remove" -> table' = Without(table, k) /\ UNCHANGED lst
                 [] OTHER -> table' = <<>> /\ UNCHANGED lst
         /\ abs' = After(Variant, Bound, abs, op[t])
         /\ loc' = [u \in Threads |-> IF pc[u] # "idle" /\ op[u].o = "values"
                        THEN [loc[u] EXCEPT !.may = @ \cup EntriesOf(abs'), !.must = @ \cap EntriesOf(abs')]
                        ELSE loc[u]]
         /\ writer' = 0
         /\ pc' = [pc EXCEPT ![t] = "idle"]
         /\ UNCHANGED <<readers, waiting, op, n>>

CanRead == writer = 0 /\ waiting = {}
RLock(t) == /\ pc[t] = "rlock" /\ CanRead
            /\ readers' = [readers EXCEPT ![t] = @ + 1]
            /\ pc' = [pc EXCEPT ![t] = IF Broken = "nested" /\ op[t].o = "empty" /\ readers[t] = 0 THEN "rlock" ELSE "r1"]
            /\ loc' = [loc EXCEPT ![t].todo = IF op[t].o = "values" THEN DOMAIN table ELSE {}]
            /\ UNCHANGED <<table, lst, writer, waiting, abs, op, n>>
R1(t) == /\ pc[t] = "r1" /\ op[t].o # "values"
         /\ loc' = [loc EXCEPT ![t].res = CASE op[t].o = "get" -> IF op[t].k \in DOMAIN table THEN table[op[t].k] ELSE Nil
                                           [] op[t].o = "contains" -> IF op[t].k \in DOMAIN table THEN "true" ELSE "false"
                                           [] op[t].o = "size" -> ToString(Len(lst))
                                           [] op[t].o = "empty" -> IF Len(lst) = 0 THEN "true" ELSE "false"
                                           [] OTHER -> Nil,
                                ![t].want = Result(abs, op[t])]
         /\ readers' = [readers EXCEPT ![t] = 0]
         /\ pc' = [pc EXCEPT ![t] = "idle"]
         /\ UNCHANGED <<table, lst, writer, waiting, abs, op, n>>
(* listing: take one entry still in the table, give the lock up, take it again *)
V1(t) == /\ pc[t] = "r1" /\ op[t].o = "values"
         /\ LET live == loc[t].todo \cap DOMAIN table IN
            IF live = {} \/ (Broken = "stops" /\ ~({g.k : g \in loc[t].got} \subseteq DOMAIN table)) THEN /\ pc' = [pc EXCEPT ![t] = "vend"] /\ UNCHANGED loc
            ELSE \E k \in live :
                   /\ loc' = [loc EXCEPT ![t].todo = live \ {k}, ![t].got = @ \cup {[k |-> k, v |-> table[k]]}]
                   /\ pc' = [pc EXCEPT ![t] = "vre"]
         /\ readers' = [readers EXCEPT ![t] = 0]
         /\ UNCHANGED <<table, lst, writer, waiting, abs, op, n>>
VRe(t) == /\ pc[t] = "vre" /\ CanRead
          /\ readers' = [readers EXCEPT ![t] = 1]
          /\ pc' = [pc EXCEPT ![t] = "r1"]
          /\ UNCHANGED <<table, lst, writer, waiting, abs, op, loc, n>>
VEnd(t) == /\ pc[t] = "vend"
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<table, lst, writer, readers, waiting, abs, op, loc, n>>

Next == \E t \in Threads : Begin(t) \/ WLock(t) \/ W1(t) \/ W2(t) \/ RLock(t) \/ R1(t) \/ V1(t) \/ VRe(t) \/ VEnd(t)
Spec == Init /\ [][Next]_vars

Quiet == writer = 0
Agree == Quiet => /\ lst = [i \in DOMAIN abs |-> abs[i].k]
                  /\ DOMAIN table = KeysOf(abs)
                  /\ \A k \in DOMAIN table : table[k] = ValOf(abs, k)
Bounded == WellFormed(Bound, abs)
Results == \A t \in Threads : loc[t].res = loc[t].want
Listing == \A t \in Threads : pc[t] = "vend" => /\ loc[t].got \subseteq loc[t].may
                                                /\ loc[t].must \subseteq loc[t].got
NoDeadlock == (\A t \in Threads : pc[t] = "idle") \/ ENABLED Next
Inv == Agree /\ Bounded /\ Results /\ Listing /\ NoDeadlock
=============================================================================
