------------------------------- MODULE DictTrace -------------------------------
(* Uses of texts and the translations seen on the wire, against Dict.  The      *)
(* translations are on the wire in the order they were accepted.  A use takes    *)
(* effect between its call and its return.                                       *)
EXTENDS TraceLib
VARIABLES tr, l, sent, at, todo, held, res
vars == <<tr, l, sent, at, todo, held, res>>
T == Traces[tr]
E == T.ev
e == E[l]
W == T.wire
Kinds == SetOf(T.kinds)
Bound(k) == IF k = "object" THEN 100 ELSE 10000
(* sent: what is remembered, oldest first; at: translations accounted for;      *)
(* todo: thread -> its use under way; held: the sender is held, the queue may    *)
(* be full; res: texts with a translation accepted since the last reset          *)
Init == /\ tr \in 1..NTraces /\ l = 1 /\ sent = [k \in Kinds |-> <<>>] /\ at = 0 /\ todo = << >> /\ held = FALSE /\ res = {}
In(k, w) == w \in SetOf(sent[k])
Cut(k, s) == IF Len(s) > Bound(k) THEN SubSeq(s, Len(s) - Bound(k) + 1, Len(s)) ELSE s
NextIs(k, w) == at < Len(W) /\ W[at + 1].k = k /\ W[at + 1].t = w
(* one use: nothing when remembered (or, among concurrent uses, once more);    *)
(* else accepted and remembered, or refused by a full queue and not remembered *)
Effect(k, w, alone) ==
    \/ /\ w = "" /\ UNCHANGED <<sent, at, res>>
    \/ /\ w # "" /\ In(k, w) /\ UNCHANGED <<sent, at, res>>
    \/ /\ w # "" /\ In(k, w) /\ ~alone /\ NextIs(k, w) /\ at' = at + 1 /\ UNCHANGED <<sent, res>>
    \/ /\ w # "" /\ ~In(k, w) /\ NextIs(k, w)
       /\ at' = at + 1 /\ sent' = [sent EXCEPT ![k] = Cut(k, Append(@, w))] /\ res' = res \cup {<<k, w>>}
    \/ /\ w # "" /\ ~In(k, w) /\ held /\ UNCHANGED <<sent, at, res>>
Hash(ev) == ev.h = ev.want /\ (ev.t = "" => ev.h = 0)
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
Call == /\ l <= Len(E) /\ e.k = "use" /\ todo' = (e.th :> <<e.kind, e.t>>) @@ todo /\ Hash(e) /\ Step /\ UNCHANGED <<sent, at, held, res>>
Do == /\ \E t \in DOMAIN todo : /\ todo[t] # <<>> /\ todo[t][1] # "" /\ Effect(todo[t][1], todo[t][2], T.alone)
                                /\ todo' = [todo EXCEPT ![t] = <<>>]
      /\ UNCHANGED <<tr, l, held>>
Ret == /\ l <= Len(E) /\ e.k = "used" /\ e.th \in DOMAIN todo /\ todo[e.th] = <<>>
       /\ todo' = [t \in DOMAIN todo \ {e.th} |-> todo[t]] /\ Step /\ UNCHANGED <<sent, at, held, res>>
(* many fresh texts in a row                                                    *)
Bulk == /\ l <= Len(E) /\ e.k = "bulk"
        /\ LET n == Len(e.texts) IN
             /\ at + n <= Len(W)
             /\ \A i \in 1..n : W[at + i].k = e.kind /\ W[at + i].t = e.texts[i]
             /\ at' = at + n /\ sent' = [sent EXCEPT ![e.kind] = Cut(e.kind, @ \o e.texts)]
        /\ Step /\ UNCHANGED <<todo, held, res>>
Reset == /\ l <= Len(E) /\ e.k = "reset" /\ sent' = [k \in Kinds |-> <<>>] /\ res' = {} /\ Step /\ UNCHANGED <<at, todo, held>>
ResetCall == /\ l <= Len(E) /\ e.k = "resetcall" /\ todo' = (e.th :> <<"", "">>) @@ todo /\ Step /\ UNCHANGED <<sent, at, held, res>>
DoReset == /\ \E t \in DOMAIN todo : /\ todo[t] = <<"", "">> /\ todo' = [todo EXCEPT ![t] = <<>>]
           /\ sent' = [k \in Kinds |-> <<>>] /\ res' = {} /\ UNCHANGED <<tr, l, at, held>>
Hold == /\ l <= Len(E) /\ e.k = "hold" /\ held' = e.on /\ Step /\ UNCHANGED <<sent, at, todo, res>>
Quiet == /\ l <= Len(E) /\ e.k = "quiet" /\ at = Len(W) /\ Step /\ UNCHANGED <<sent, at, todo, held, res>>
Next == Call \/ Do \/ Ret \/ Bulk \/ Reset \/ ResetCall \/ DoReset \/ Hold \/ Quiet
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
