------------------------------ MODULE HostTrace ------------------------------
(* What the calls of a host program did to it.  The state is what the host has:  *)
(* its contexts (what they were made of, and the transaction they carry), which  *)
(* transactions it has ended, and the messages it gave where nothing may be      *)
(* recorded.  Events come in an order in which a start takes effect when it has  *)
(* returned, an end when it has returned, and a message when it is called.       *)
EXTENDS TraceLib
VARIABLES tr, l, cx, txs, ended, dead, ran
vars == <<tr, l, cx, txs, ended, dead, ran>>
T == Traces[tr]
E == T.ev
e == E[l]
Progress == ProgressOf(tr, l)
Done == Report
Nil == [root |-> "nil", tx |-> "", kid |-> FALSE]
Ctx(n) == IF n \in DOMAIN cx THEN cx[n] ELSE Nil
C == Ctx(e.c)
Put(n, r) == cx' = (n :> r) @@ cx
Init == tr \in 1..NTraces /\ l = 1 /\ cx = << >> /\ txs = {} /\ ended = {} /\ dead = {} /\ ran = << >>
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
(* nothing of the agent's reaches the host but the result                        *)
Quiet == ~Has(e, "panic") /\ ~Has(e, "badop")
Root(kind) == CASE kind = "nil" -> "nil" [] kind \in {"broken", "typednil"} -> "broken" [] OTHER -> "plain"
Make == /\ Step /\ e.o = "ctx" /\ Quiet
        /\ Put(e.k, [root |-> Root(e.kind), tx |-> IF Has(e, "p") /\ Root(e.kind) = "plain" THEN Ctx(e.p).tx ELSE "",
                        kid |-> Has(e, "p") /\ Ctx(e.p).kid])
        /\ UNCHANGED <<txs, ended, dead, ran>>
(* a context that came back: there, and - unless the given one could not be asked *)
(* anything - good for all the host had in the given one                         *)
Sound == ~e.nil /\ (e.usable \/ C.root = "broken")
Back == [root |-> IF C.root = "broken" /\ ~e.usable THEN "broken" ELSE "plain", tx |-> e.txid,
         kid |-> e.o = "ran" \/ (C.kid /\ e.txid = C.tx)]  \* of a traced goroutine: may have ended by itself
Novel == e.txid # "" /\ e.txid \notin txs
StartsNew == CASE e.o = "start" -> Novel
              [] e.o = "starthttp" -> IF e.req = "ok" /\ C.root = "plain" THEN Novel ELSE e.txid = "" \/ Novel
              [] OTHER -> IF Ctx(e.p).tx # "" /\ Ctx(e.p).root # "broken" THEN Novel ELSE e.txid = "" \/ Novel \/ e.txid = C.tx
Start == /\ Step /\ e.o \in {"start", "starthttp", "inherit"} /\ Quiet /\ Sound
         /\ (CASE C.root = "broken" -> TRUE
               [] C.tx # "" /\ e.o # "inherit" -> e.same /\ e.txid = C.tx
               [] OTHER -> StartsNew) = TRUE
         /\ Put(e.k, Back) /\ txs' = IF e.txid = "" THEN txs ELSE txs \cup {e.txid}
         /\ UNCHANGED <<ended, dead, ran>>
End == /\ Step /\ e.o \in {"end", "endhttp"} /\ Quiet
       /\ ended' = IF C.tx = "" THEN ended ELSE ended \cup {C.tx}
       /\ UNCHANGED <<cx, txs, dead, ran>>
(* a message where there is no transaction, or one that has ended                *)
Msg == /\ Step /\ e.o \in {"msg", "hmsg", "pmsg", "addstep", "err", "errf", "name"} /\ Quiet
       /\ dead' = IF ((C.tx = "" /\ C.root # "broken") \/ C.tx \in ended) /\ Has(e, "m") THEN dead \cup {e.m} ELSE dead
       /\ UNCHANGED <<cx, txs, ended, ran>>
Open == /\ Step /\ e.o \in {"method", "method0", "methodp", "api", "apiprop"} /\ Quiet
        /\ ((C.tx = "" /\ C.root # "broken") => e.nilstep \/ Has(e, "deferred")) = TRUE
        /\ ((C.tx # "" /\ C.root # "broken" /\ C.tx \notin ended /\ ~C.kid) => ~e.nilstep) = TRUE
        /\ UNCHANGED <<cx, txs, ended, dead, ran>>
Close == Step /\ e.o \in {"endmethod", "endapi"} /\ Quiet /\ UNCHANGED <<cx, txs, ended, dead, ran>>
Ask == /\ Step /\ e.o \in {"stream", "isstream", "fallback", "lookup"} /\ Quiet
       /\ (CASE C.root = "broken" -> TRUE
             [] e.o = "stream" -> e.v = (C.tx # "")
             [] e.o = "isstream" -> C.tx = "" => ~e.v
             [] e.o = "fallback" -> C.root = "broken" \/ (~e.nil /\ (C.tx # "" => e.txid = C.tx) /\ (C.tx = "" => e.txid \notin txs))
             [] OTHER -> C.root = "broken" \/ e.nil = (C.tx = "")) = TRUE
       /\ UNCHANGED <<cx, txs, ended, dead, ran>>
(* a goroutine was asked for; its function ran, with a context good for what the *)
(* host had, traced if the given one was                                         *)
Go == Step /\ e.o = "go" /\ Quiet /\ UNCHANGED <<cx, txs, ended, dead, ran>>
Ran == /\ Step /\ e.o = "ran" /\ Sound
       /\ (CASE C.root = "broken" -> TRUE
             [] C.tx = "" -> e.txid = ""
             [] OTHER -> Novel) = TRUE
       /\ Put(e.k, Back) /\ txs' = IF e.txid = "" THEN txs ELSE txs \cup {e.txid}
       /\ ran' = (e.k :> (IF e.k \in DOMAIN ran THEN ran[e.k] + 1 ELSE 1)) @@ ran
       /\ UNCHANGED <<ended, dead>>
(* the host's own panic, Goexit or return went through the deferred calls        *)
Guard == Step /\ e.o = "guard" /\ Quiet /\ e.through = e.how /\ UNCHANGED <<cx, txs, ended, dead, ran>>
(* the end of the program: every goroutine's function ran once                   *)
Runs == /\ Step /\ e.o = "runs" /\ ~e.blocked
        /\ (\A i \in DOMAIN e.ks : e.ks[i] \in DOMAIN ran /\ ran[e.ks[i]] = 1 /\ e.ns[i] = 1) = TRUE
        /\ UNCHANGED <<cx, txs, ended, dead, ran>>
(* the host's process ended because of its own panic in a traced goroutine, and  *)
(* said so in the way it would have                                              *)
Died == Step /\ e.o = "died" /\ e.code = T.code /\ e.said /\ UNCHANGED <<cx, txs, ended, dead, ran>>
Dies == Step /\ e.o = "alive" /\ e.ok /\ UNCHANGED <<cx, txs, ended, dead, ran>>
(* recorded                                                                      *)
Seen == Step /\ e.o = "seen" /\ (SetOf(e.ms) \cap dead = {}) = TRUE /\ UNCHANGED <<cx, txs, ended, dead, ran>>
Xlog == /\ Step /\ e.o = "xlogs"
        /\ (\A i \in DOMAIN e.ids : e.ids[i] \in txs /\ \A j \in DOMAIN e.ids : e.ids[i] = e.ids[j] => i = j) = TRUE
        (* no profile but of a transaction of the program *)
        /\ (SetOf(e.ps) \subseteq txs) = TRUE
        /\ UNCHANGED <<cx, txs, ended, dead, ran>>
Next == Make \/ Start \/ End \/ Msg \/ Open \/ Close \/ Ask \/ Go \/ Ran \/ Guard \/ Runs \/ Died \/ Dies \/ Seen \/ Xlog
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
=============================================================================
