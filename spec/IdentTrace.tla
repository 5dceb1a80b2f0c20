------------------------------ MODULE IdentTrace ------------------------------
(* Ids observed in recorded programs - in contexts, request headers, profiles   *)
(* and records - against Ident.                                                  *)
EXTENDS TraceLib
VARIABLES tr, l, used, tx, prof
vars == <<tr, l, used, tx, prof>>
T == Traces[tr]
E == T.ev
e == E[l]
Init == /\ tr \in 1..NTraces /\ l = 1 /\ used = {} /\ tx = << >> /\ prof = << >>
Is(k) == l <= Len(E) /\ e.k = k /\ l' = l + 1 /\ UNCHANGED tr
Fresh(i) == i \notin used /\ i # "0" /\ used' = used \cup {i}
Node(root, caller) == [root |-> root, caller |-> caller, kids |-> <<>>, calls |-> {}, done |-> {}, open |-> TRUE]
Put(x, n) == (x :> n) @@ tx

Start == /\ Is("start") /\ Fresh(e.tx) /\ e.gxid = e.tx /\ e.caller = "0"
         /\ tx' = Put(e.tx, Node(e.tx, "0")) /\ UNCHANGED prof
(* starting where a transaction is under way continues that one               *)
Alias == /\ Is("alias") /\ e.tx = e.of /\ UNCHANGED <<used, tx, prof>>
Chain == /\ Is("go") /\ Fresh(e.tx) /\ e.from \in DOMAIN tx
         /\ e.gxid = tx[e.from].root /\ e.caller = e.from
         /\ tx' = (e.tx :> Node(tx[e.from].root, e.from)) @@ [tx EXCEPT ![e.from].kids = IF tx[e.from].open THEN Append(@, <<e.tx, e.name>>) ELSE @]
         /\ UNCHANGED prof
Inherit == /\ Is("inherit") /\ Fresh(e.tx) /\ e.from \in DOMAIN tx
           /\ e.gxid = tx[e.from].root /\ e.caller = e.from
           /\ tx' = Put(e.tx, Node(tx[e.from].root, e.from)) /\ UNCHANGED prof
Call == /\ Is("call") /\ Fresh(e.id) /\ e.tx \in DOMAIN tx
        /\ Has(e, "hdr") => /\ e.hdr.gxid = tx[e.tx].root /\ e.hdr.caller = e.tx /\ e.hdr.callee = e.id /\ e.hdr.obj = T.obj
        /\ tx' = [tx EXCEPT ![e.tx].calls = @ \cup {e.id}] /\ UNCHANGED prof
CallDone == /\ Is("calldone") /\ tx' = [tx EXCEPT ![e.tx].done = IF tx[e.tx].open THEN @ \cup {e.id} ELSE @] /\ UNCHANGED <<used, prof>>
(* the records                                                                 *)
Xlog == /\ Is("xlog") /\ e.tx \in DOMAIN tx /\ e.gxid = tx[e.tx].root /\ e.caller = tx[e.tx].caller /\ e.obj = T.obj
        /\ UNCHANGED <<used, tx, prof>>
(* steps of a profile that name other transactions or calls                   *)
Profile == /\ Is("profile") /\ e.tx \in DOMAIN tx
           /\ prof' = (e.tx :> (IF e.tx \in DOMAIN prof THEN prof[e.tx] ELSE <<>>) \o e.refs) @@ prof
           /\ UNCHANGED <<used, tx>>
Refs(x, kind) == LET p == IF x \in DOMAIN prof THEN prof[x] ELSE <<>> IN SelectSeq(p, LAMBDA r : r.k = kind)
Quiet == /\ Is("quiet")
         /\ \A i \in DOMAIN e.ended : LET x == e.ended[i]
                                          a == Refs(x, "async")
                                          c == Refs(x, "call") IN
              /\ {<<a[j].id, a[j].name>> : j \in DOMAIN a} = SetOf(tx[x].kids) /\ Len(a) = Len(tx[x].kids)
              /\ {c[j].id : j \in DOMAIN c} = tx[x].done /\ Len(c) = Cardinality(tx[x].done)
         /\ UNCHANGED <<used, tx, prof>>
(* ids drawn by several processes started together, and by many threads       *)
End == Is("end") /\ tx' = [tx EXCEPT ![e.tx].open = FALSE] /\ UNCHANGED <<used, prof>>
Drawn == /\ Is("drawn") /\ Cardinality(SetOf(e.ids)) = Len(e.ids) /\ SetOf(e.ids) \cap used = {}
         /\ used' = used \cup SetOf(e.ids) /\ UNCHANGED <<tx, prof>>
Next == Start \/ Alias \/ Chain \/ Inherit \/ Call \/ CallDone \/ Xlog \/ Profile \/ Quiet \/ Drawn \/ End
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
