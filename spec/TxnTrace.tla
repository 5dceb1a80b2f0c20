------------------------------- MODULE TxnTrace -------------------------------
(* Recorded histories of transactions against the life described in Txn (C01). *)
(* An operation is known by its call and its return; what happens in between   *)
(* is unknown, so facts are "certain" or "possible" until then.                *)
EXTENDS TraceLib
VARIABLES tr, l, ph, pend, asks, err, rec, recErr, start, clock, obs
vars == <<tr, l, ph, pend, asks, err, rec, recErr, start, clock, obs>>
T == Traces[tr]
E == T.ev
TXS == SetOf(T.txs)
e == E[l]

(* ph: "none" | "born" (start called) | "live" (start returned) | "asked" (an  *)
(* end was called) | "gone" (asked, and every such call returned)              *)
Init == /\ tr \in 1..NTraces /\ l = 1
        /\ ph = [x \in TXS |-> "none"] /\ pend = [x \in TXS |-> 0]
        /\ asks = [x \in TXS |-> {}]        \* who asked: "api", "reaper"
        /\ err = [x \in TXS |-> "no"] /\ rec = [x \in TXS |-> 0] /\ recErr = [x \in TXS |-> FALSE]
        /\ start = [x \in TXS |-> 0] /\ clock = 0
        /\ obs = << >>                      \* observations under way: thread -> [may, must]
       
Is(k) == l <= Len(E) /\ e.k = k /\ l' = l + 1 /\ UNCHANGED tr

Widen(x) == [t \in DOMAIN obs |-> [obs[t] EXCEPT !.may = @ \cup {x}]]
Narrow(S) == [t \in DOMAIN obs |-> [obs[t] EXCEPT !.must = @ \ S]]

Born == /\ Is("born") /\ ph[e.tx] = "none"
        /\ ph' = [ph EXCEPT ![e.tx] = "born"] /\ start' = [start EXCEPT ![e.tx] = clock]
        /\ err' = [err EXCEPT ![e.tx] = IF Has(e, "from") /\ e.from \in TXS THEN err[e.from] ELSE "no"]
        /\ obs' = Widen(e.tx)
        /\ UNCHANGED <<pend, asks, rec, recErr, clock>>
Started == /\ Is("started") /\ ph[e.tx] \in {"born", "asked", "gone"}
           /\ ph' = [ph EXCEPT ![e.tx] = IF @ = "born" THEN "live" ELSE @]
           /\ start' = [start EXCEPT ![e.tx] = clock]
           /\ UNCHANGED <<pend, asks, err, rec, recErr, clock, obs>>
AskIn(S, who) == /\ ph' = [x \in TXS |-> IF x \in S /\ ph[x] \in {"born", "live"} THEN "asked" ELSE ph[x]]
                 /\ pend' = [x \in TXS |-> IF x \in S THEN pend[x] + 1 ELSE pend[x]]
                 /\ asks' = [x \in TXS |-> IF x \in S THEN asks[x] \cup {who} ELSE asks[x]]
Ask == /\ Is("ask") /\ AskIn({e.tx}, "api") /\ obs' = Narrow({e.tx})
       /\ UNCHANGED <<err, rec, recErr, start, clock>>
Asked == /\ Is("asked") /\ pend[e.tx] > 0
         /\ pend' = [pend EXCEPT ![e.tx] = @ - 1]
         /\ ph' = [ph EXCEPT ![e.tx] = IF pend[e.tx] = 1 THEN "gone" ELSE @]
         /\ UNCHANGED <<asks, err, rec, recErr, start, clock, obs>>
Stuck(x) == ph[x] \in {"live", "asked"} /\ clock - start[x] > T.limit
(* reading the activity counts: the scan that also ends stuck transactions *)
Reap == /\ Is("reap")
        /\ LET S == IF T.removes THEN {x \in TXS : Stuck(x)} ELSE {} IN
             /\ AskIn(S, "reaper")
             /\ err' = [x \in TXS |-> IF x \in S /\ err[x] = "no" THEN "maybe" ELSE err[x]]
             /\ obs' = Narrow(S) @@ (<<"r", e.th>> :> [may |-> S, must |-> {}])
        /\ UNCHANGED <<rec, recErr, start, clock>>
Reaped == /\ Is("reaped") /\ <<"r", e.th>> \in DOMAIN obs
          /\ LET S == obs[<<"r", e.th>>].may \cap {x \in TXS : "reaper" \in asks[x]} IN
               /\ pend' = [x \in TXS |-> IF x \in S /\ pend[x] > 0 THEN pend[x] - 1 ELSE pend[x]]
               /\ ph' = [x \in TXS |-> IF x \in S /\ pend[x] = 1 /\ ph[x] = "asked" THEN "gone" ELSE ph[x]]
          /\ obs' = [t \in DOMAIN obs \ {<<"r", e.th>>} |-> obs[t]]
          /\ UNCHANGED <<asks, err, rec, recErr, start, clock>>
Clock == /\ Is("clock") /\ clock' = clock + e.ms
         /\ UNCHANGED <<ph, pend, asks, err, rec, recErr, start, obs>>
ErrCall == /\ Is("errcall")
           /\ err' = [err EXCEPT ![e.tx] = IF @ = "no" /\ ph[e.tx] # "gone" THEN "maybe" ELSE @]
           /\ UNCHANGED <<ph, pend, asks, rec, recErr, start, clock, obs>>
ErrRet == /\ Is("errret")
          /\ err' = [err EXCEPT ![e.tx] = IF ph[e.tx] = "live" THEN "yes" ELSE @]
          /\ UNCHANGED <<ph, pend, asks, rec, recErr, start, clock, obs>>
List == /\ Is("list")
        /\ obs' = obs @@ (<<"l", e.th>> :> [may |-> {x \in TXS : ph[x] \in {"born", "live", "asked"}},
                                             must |-> {x \in TXS : ph[x] = "live"}])
        /\ UNCHANGED <<ph, pend, asks, err, rec, recErr, start, clock>>
Listed == /\ Is("listed") /\ <<"l", e.th>> \in DOMAIN obs
          /\ obs[<<"l", e.th>>].must \subseteq SetOf(e.set)
          /\ SetOf(e.set) \subseteq obs[<<"l", e.th>>].may
          /\ Cardinality(SetOf(e.set)) = Len(e.set)
          /\ obs' = [t \in DOMAIN obs \ {<<"l", e.th>>} |-> obs[t]]
          /\ UNCHANGED <<ph, pend, asks, err, rec, recErr, start, clock>>
(* a record arrives: of a transaction whose end was asked for, the first one, *)
(* and in error exactly if the transaction was                                *)
Xlog == /\ Is("xlog") /\ e.tx \in TXS /\ ph[e.tx] \in {"asked", "gone"} /\ rec[e.tx] = 0
        /\ err[e.tx] = "no" => ~e.err
        /\ err[e.tx] = "yes" => e.err
        /\ rec' = [rec EXCEPT ![e.tx] = 1] /\ recErr' = [recErr EXCEPT ![e.tx] = e.err]
        /\ UNCHANGED <<ph, pend, asks, err, start, clock, obs>>
(* all quiet: everything asked for has happened, once, and nothing else       *)
Quiet == /\ Is("quiet")
         /\ LET ended == {x \in TXS : asks[x] # {}}
                sure == {x \in ended : rec[x] = 1 /\ recErr[x]}
                open == {x \in ended : rec[x] = 0 /\ err[x] = "maybe"}
            IN  /\ \A x \in ended : T.keepall \/ err[x] = "yes" => rec[x] = 1
                /\ \A x \in ended : asks[x] = {"reaper"} /\ rec[x] = 1 => recErr[x]
                /\ SetOf(e.set) = {x \in TXS : ph[x] \in {"born", "live"}}
                /\ e.count = Cardinality(ended)
                /\ e.errs >= Cardinality(sure) /\ e.errs <= Cardinality(sure) + Cardinality(open)
         /\ ph' = [x \in TXS |-> IF asks[x] # {} THEN "gone" ELSE ph[x]]
         /\ pend' = [x \in TXS |-> 0]
         /\ obs' = << >>
         /\ UNCHANGED <<asks, err, rec, recErr, start, clock>>
Next == Born \/ Started \/ Ask \/ Asked \/ Reap \/ Reaped \/ Clock \/ ErrCall \/ ErrRet \/ List \/ Listed \/ Xlog \/ Quiet
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
