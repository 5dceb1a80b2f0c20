------------------------------- MODULE UdpTrace -------------------------------
(* Offers of packs and the datagrams that left, against Udp.  T.wire: the queued  *)
(* packs in the order they were complete on the wire; an offer takes effect       *)
(* between its call and its return, and the accepted ones are on the wire in that *)
(* order.  A refusal needs a full queue: at least Q accepted packs not yet seen   *)
(* on the wire.                                                                   *)
EXTENDS TraceLib
VARIABLES tr, l, acc, wired, todo, lims, part, direct
vars == <<tr, l, acc, wired, todo, lims, part, direct>>
T == Traces[tr]
E == T.ev
e == E[l]
W == T.wire
Init == /\ tr \in 1..NTraces /\ l = 1 /\ acc = 0 /\ wired = 0 /\ todo = << >> /\ lims = SetOf(T.lims) /\ part = << >> /\ direct = {}
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
Done1(th, r) == todo' = [todo EXCEPT ![th] = [done |-> TRUE, acc |-> r]]
(* ------------------------------------------------------------ offers *)
Call == /\ l <= Len(E) /\ e.k = "offer" /\ Step
        /\ todo' = (e.th :> [done |-> FALSE, p |-> e.p]) @@ todo
        /\ UNCHANGED <<acc, wired, lims, part, direct>>
Accept(th) == /\ acc < Len(W) /\ W[acc + 1] = todo[th].p
              /\ acc' = acc + 1 /\ Done1(th, TRUE)
Refuse(th) == /\ acc - wired >= T.q
              /\ Done1(th, FALSE) /\ UNCHANGED acc
Do == /\ \E th \in DOMAIN todo : ~todo[th].done /\ (Accept(th) \/ Refuse(th))
      /\ UNCHANGED <<tr, l, wired, lims, part, direct>>
Ret == /\ l <= Len(E) /\ e.k = "offered" /\ Step
       /\ e.th \in DOMAIN todo /\ todo[e.th].done /\ (e.acc # "?" => (e.acc = "yes") = todo[e.th].acc)
       /\ todo' = [t \in DOMAIN todo \ {e.th} |-> todo[t]]
       /\ UNCHANGED <<acc, wired, lims, part, direct>>
(* packs sent beside the queue                                                  *)
Direct == /\ l <= Len(E) /\ e.k = "direct" /\ Step /\ direct' = direct \cup {e.p}
          /\ UNCHANGED <<acc, wired, todo, lims, part>>
(* ------------------------------------------------------------ datagrams *)
MaxLim == CHOOSE x \in lims : \A y \in lims : y <= x
(* the packs complete with this datagram are the next ones on the wire, already  *)
(* accepted, or direct ones not seen before                                      *)
Arrived(ps, ds) == /\ wired + Len(ps) <= acc
                   /\ \A i \in DOMAIN ps : W[wired + i] = ps[i]
                   /\ wired' = wired + Len(ps)
                   /\ \A i \in DOMAIN ds : ds[i] \in direct
                   /\ Cardinality(SetOf(ds)) = Len(ds)
                   /\ direct' = direct \ SetOf(ds)
One == /\ l <= Len(E) /\ e.k = "one" /\ Step /\ e.bytes <= MaxLim /\ Arrived(e.ps, e.ds)
       /\ UNCHANGED <<acc, todo, lims, part>>
Batch == /\ l <= Len(E) /\ e.k = "batch" /\ Step /\ e.bytes <= MaxLim /\ e.count = e.n /\ e.n > 0 /\ Arrived(e.ps, e.ds)
         /\ UNCHANGED <<acc, todo, lims, part>>
(* a run of fragments of one pack, numbered from .. to                           *)
Got(pk) == IF pk \in DOMAIN part THEN part[pk].got ELSE {}
Frag == /\ l <= Len(E) /\ e.k = "frag" /\ Step /\ e.bytes <= MaxLim
        /\ e.from >= 0 /\ e.from <= e.to /\ e.to < e.total
        /\ e.pk \in DOMAIN part => part[e.pk].total = e.total
        /\ (e.from .. e.to) \cap Got(e.pk) = {}
        /\ LET g == Got(e.pk) \cup (e.from .. e.to) IN
             IF Cardinality(g) = e.total
             THEN part' = [p \in DOMAIN part \ {e.pk} |-> part[p]] /\ Arrived(e.ps, e.ds)
             ELSE part' = (e.pk :> [total |-> e.total, got |-> g]) @@ [p \in DOMAIN part \ {e.pk} |-> part[p]]
                  /\ e.ps = <<>> /\ e.ds = <<>> /\ UNCHANGED <<wired, direct>>
        /\ UNCHANGED <<acc, todo, lims>>
(* ------------------------------------------------------------ the limit *)
Limit == /\ l <= Len(E) /\ e.k = "limit" /\ Step /\ lims' = lims \cup {e.v} /\ UNCHANGED <<acc, wired, todo, part, direct>>
Settled == /\ l <= Len(E) /\ e.k = "settled" /\ Step /\ lims' = {e.v} /\ UNCHANGED <<acc, wired, todo, part, direct>>
(* everything accepted has left, whole                                          *)
Quiet == /\ l <= Len(E) /\ e.k = "quiet" /\ Step /\ wired = acc /\ acc = Len(W) /\ direct = {} /\ part = << >> /\ todo = << >>
         /\ UNCHANGED <<acc, wired, todo, lims, part, direct>>
Next == Call \/ Do \/ Ret \/ Direct \/ One \/ Batch \/ Frag \/ Limit \/ Settled \/ Quiet
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
