-------------------------------- MODULE RefTrace --------------------------------
(* Programs run right after a cache reset: every hash in the records, profiles   *)
(* and heartbeats the agent sends is translated by a text record of its kind,    *)
(* accepted since that reset (Dict: Resolvable).                                  *)
EXTENDS TraceLib
VARIABLES tr, l, res
vars == <<tr, l, res>>
T == Traces[tr]
E == T.ev
e == E[l]
Init == tr \in 1..NTraces /\ l = 1 /\ res = {}
Step == l' = l + 1 /\ UNCHANGED tr
Text == l <= Len(E) /\ e.k = "text" /\ e.h = e.want /\ res' = res \cup {<<e.kind, e.h>>} /\ Step
Ref == l <= Len(E) /\ e.k = "ref" /\ (e.h # "0" => <<e.kind, e.h>> \in res) /\ UNCHANGED res /\ Step
Next == Text \/ Ref
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
