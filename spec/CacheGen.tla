------------------------------- MODULE CacheGen -------------------------------
(* Behaviours of the abstract cache, printed as programs for the real caches.  *)
EXTENDS Cache, Json
CONSTANTS Len0, Keys
VARIABLES variant, bound, c, hist
vars == <<variant, bound, c, hist>>
Ops == {"add", "remove", "get", "contains", "size", "empty", "values", "clear"}
Init == /\ variant \in {"lra", "cachemap", "cachemap2", "cacheset", "lrakey"} /\ bound \in 1..4
        /\ c = <<>> /\ hist = <<>>
Allowed(o) == variant \in {"cacheset", "lrakey"} => o \notin ({"get", "values"} \cup (IF variant = "cacheset" THEN {"remove"} ELSE {}))
Weight(o) == IF o = "add" THEN 1..4 ELSE IF o = "clear" THEN (IF Len(hist) % 7 = 3 THEN 1..1 ELSE {}) ELSE 1..1
Do == /\ Len(hist) < Len0
      /\ \E o \in {x \in Ops : Allowed(x)} : \E w \in Weight(o), k \in Keys :
           LET op == [o |-> o, k |-> k, v |-> k \o "-" \o ToString(Len(hist))]
           IN  /\ c' = After(variant, bound, c, op)
               /\ hist' = Append(hist, op)
      /\ UNCHANGED <<variant, bound>>
Next == Do
Spec == Init /\ [][Next]_vars
Emit == /\ WellFormed(bound, c)
        /\ Len(hist) = Len0 => PrintT(<<"GEN", ToJson([variant |-> variant, bound |-> bound, ops |-> hist])>>)
=============================================================================
