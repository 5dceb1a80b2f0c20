------------------------------ MODULE PatternTrace ------------------------------
(* Answers of the real matcher against Pattern: for a pattern, exactly which of   *)
(* all names up to a length it matches; for a list, its answer for one name.       *)
EXTENDS TraceLib, Pattern
VARIABLES tr, l
vars == <<tr, l>>
T == Traces[tr]
E == T.ev
e == E[l]
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strings(n - 1) IN S \cup {Append(x, c) : x \in {y \in S : Len(y) = n - 1}, c \in {"a", "b"}}
Names == Strings(5)
Names7 == Strings(7)
Init == tr \in 1..NTraces /\ l = 1
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
All == /\ l <= Len(E) /\ e.k = "all" /\ InScope(e.p)
       /\ SetOf(e.hits) = {s \in (IF e.n = 5 THEN Names ELSE Names7) : Matches(e.p, s)} /\ Step
One == /\ l <= Len(E) /\ e.k = "one" /\ (\A i \in DOMAIN e.ps : InScope(e.ps[i])) /\ e.r = MatchesList(e.ps, e.s) /\ Step
Next == All \/ One
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
