-------------------------------- MODULE Profile --------------------------------
(* The profile collector of one transaction (C04).  Steps are added, or begun   *)
(* (pushed) and completed (popped); completed steps gather in a buffer of K      *)
(* steps that is delivered, split into records of at most M steps, when it is    *)
(* full and when the transaction ends.  The collector itself keeps only the      *)
(* next index, the current parent and the buffer; the ghost variables say what   *)
(* was begun, completed and open.                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS K, M, MaxSteps, Nested, RestoreParent
VARIABLES next, parent, buf, sent, count, closed,    \* the collector
          begun, completed, open, held               \* ghosts: held = steps pushed and not popped
vars == <<next, parent, buf, sent, count, closed, begun, completed, open, held>>
Init == /\ next = 0 /\ parent = 0 /\ buf = <<>> /\ sent = <<>> /\ count = 0 /\ closed = FALSE
        /\ begun = <<>> /\ completed = <<>> /\ open = <<>> /\ held = {}
Innermost == IF open = <<>> THEN 0 ELSE open[Len(open)]
RECURSIVE Split(_)
Split(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) <= M THEN <<s>> ELSE <<SubSeq(s, 1, M)>> \o Split(SubSeq(s, M + 1, Len(s)))
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
Process(step) == LET b == Append(buf, step) IN
    IF Len(b) >= K THEN buf' = <<>> /\ sent' = sent \o Split(b) /\ count' = count + Len(b)
                   ELSE buf' = b /\ UNCHANGED <<sent, count>>
More == Len(begun) < MaxSteps /\ ~closed
Add == /\ More
       /\ LET s == [i |-> next, p |-> parent] IN
            /\ Process(s) /\ begun' = Append(begun, [s EXCEPT !.p = Innermost]) /\ completed' = Append(completed, s)
       /\ next' = next + 1 /\ UNCHANGED <<parent, closed, open, held>>
Push == /\ More
        /\ LET s == [i |-> next, p |-> parent] IN
             /\ begun' = Append(begun, [s EXCEPT !.p = Innermost]) /\ held' = held \cup {s}
        /\ open' = Append(open, next) /\ parent' = next /\ next' = next + 1
        /\ UNCHANGED <<buf, sent, count, closed, completed>>
Pop == /\ ~closed
       /\ \E s \in held : /\ Nested => s.i = Innermost
                          /\ Process(s) /\ completed' = Append(completed, s) /\ held' = held \ {s}
                          /\ parent' = IF RestoreParent THEN s.p ELSE 0
                          /\ open' = SelectSeq(open, LAMBDA x : x # s.i)
       /\ UNCHANGED <<next, closed, begun>>
Close == /\ ~closed /\ closed' = TRUE
         /\ sent' = sent \o Split(buf) /\ count' = count + Len(buf) /\ buf' = <<>>
         /\ UNCHANGED <<next, parent, begun, completed, open, held>>
Next == Add \/ Push \/ Pop \/ Close
Spec == Init /\ [][Next]_vars

ExactlyOnce == Flat(sent) \o buf = completed
Numbered == \A i \in DOMAIN begun : begun[i].i = i - 1
Unique == \A i, j \in DOMAIN completed : i # j => completed[i].i # completed[j].i
(* parents are right when steps are closed in the reverse order of opening    *)
Parents == Nested => \A i \in DOMAIN completed : completed[i].p = begun[completed[i].i + 1].p
Bounded == (\A i \in DOMAIN sent : Len(sent[i]) <= M /\ sent[i] # <<>>) /\ Len(buf) < K
Counted == count = Len(Flat(sent)) /\ (closed => count = Len(completed))
=============================================================================
