------------------------------ MODULE SamplingTrace ------------------------------
(* What became of transactions of the real agent, against Sampling and Pattern.     *)
(* A cell: one name, elapsed time and state under every one of 100 equally likely    *)
(* draws, with how many were delivered in full, without profile, or not at all.      *)
EXTENDS TraceLib
S == INSTANCE Sampling WITH D <- 100
P == INSTANCE Pattern
VARIABLES tr, l, c
vars == <<tr, l, c>>
T == Traces[tr]
E == T.ev
e == E[l]
Init == tr \in 1..NTraces /\ l = 1 /\ c = [none |-> TRUE]
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
Conf == l <= Len(E) /\ e.k = "conf" /\ c' = e.c /\ Step
Txn(x) == [el |-> x.el, err |-> x.err, child |-> x.child,
           excl |-> P!MatchesList(c.excl, x.name), disc |-> P!MatchesList(c.disc, x.name),
           m1 |-> P!MatchesList(c.m1, x.name), m2 |-> P!MatchesList(c.m2, x.name), m3 |-> P!MatchesList(c.m3, x.name)]
Cell == /\ l <= Len(E) /\ e.k = "cell"
        /\ LET t == Txn(e) k == S!Kept(c, t) lost == S!Lost(c, t) IN
             /\ e.strange = 0 /\ e.full + e.record + e.nothing = e.n
             /\ (lost # "record" => e.record = 0) /\ (lost # "nothing" => e.nothing = 0)
             /\ IF e.n # 100 THEN (k = 100 => e.full = e.n) /\ (k = 0 => e.full = 0)
                ELSE IF e.controlled \/ k \in {0, 100} THEN e.full = k
                ELSE e.full - k < 30 /\ k - e.full < 30     \* draws that could not be steered
        /\ Step /\ UNCHANGED c
Next == Conf \/ Cell
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
