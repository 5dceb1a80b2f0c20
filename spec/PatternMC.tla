-------------------------------- MODULE PatternMC --------------------------------
(* every pattern and every name up to a length, over two letters                   *)
EXTENDS Pattern
CONSTANTS PL, NL, Careful, Letters
VARIABLES p, s, phase
vars == <<p, s, phase>>
Init == p = <<>> /\ s = <<>> /\ phase = "p"
GrowP == phase = "p" /\ Len(p) < PL /\ \E c \in Letters \cup {"*"} : p' = Append(p, c) /\ UNCHANGED <<s, phase>>
Turn == phase = "p" /\ phase' = "s" /\ UNCHANGED <<p, s>>
GrowS == phase = "s" /\ Len(s) < NL /\ \E c \in Letters : s' = Append(s, c) /\ UNCHANGED <<p, phase>>
Next == GrowP \/ Turn \/ GrowS
Spec == Init /\ [][Next]_vars
Same == phase = "s" => (DecideWith(p, s, Careful) <=> Matches(p, s))
=============================================================================
