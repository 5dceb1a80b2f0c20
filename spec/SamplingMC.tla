------------------------------- MODULE SamplingMC -------------------------------
(* every cell of the decision table with few thresholds and percentages            *)
EXTENDS Sampling
CONSTANTS Strict, Els, Pcts
VARIABLES c, t, made, hist
vars == <<c, t, made, hist>>
Rule(on, s, p, only) == [on |-> on, s1 |-> s[1], s2 |-> s[2], s3 |-> s[3], p1 |-> p[1], p2 |-> p[2], p3 |-> p[3], p4 |-> p[4], only |-> only]
Steps == {<<1, 2, 3>>, <<2, 1, 3>>, <<0, 0, 2>>}
PctSets == {<<a, b, 1, 0>> : a \in Pcts, b \in Pcts} \cup {<<0, 1, 2, D + 1>>, <<-1, D, 0, 1>>}
Rules == {Rule(on, <<1, 2, 3>>, <<0, 1, D, 2>>, only) : on \in BOOLEAN, only \in BOOLEAN}
T == [el : Els, err : BOOLEAN, child : BOOLEAN, excl : BOOLEAN, disc : BOOLEAN, m1 : BOOLEAN, m2 : BOOLEAN, m3 : BOOLEAN]
Off == Rule(FALSE, <<1, 2, 3>>, <<0, 0, 0, 0>>, FALSE)
Init == /\ c = [showerr |-> TRUE, g |-> Off, r1 |-> Off, r2 |-> Off, r3 |-> Off]
        /\ t = [el |-> 0, err |-> FALSE, child |-> FALSE, excl |-> FALSE, disc |-> FALSE, m1 |-> FALSE, m2 |-> FALSE, m3 |-> FALSE]
        /\ made = 0 /\ hist = <<>>
General == made = 0 /\ \E s \in Steps, p \in PctSets, only \in BOOLEAN, on \in BOOLEAN, sh \in BOOLEAN :
              c' = [c EXCEPT !.g = Rule(on, s, p, only), !.showerr = sh] /\ made' = 1 /\ UNCHANGED <<t, hist>>
Patterned == made = 1 /\ \E a \in Rules, b \in Rules, d \in {Off, Rule(TRUE, <<1, 2, 3>>, <<D, 0, 1, 1>>, TRUE)} :
              c' = [c EXCEPT !.r1 = a, !.r2 = b, !.r3 = d] /\ made' = 2 /\ UNCHANGED <<t, hist>>
Txn == made = 2 /\ t' \in T /\ made' = 3 /\ UNCHANGED <<c, hist>>
Next == General \/ Patterned \/ Txn
Spec == Init /\ [][Next]_vars
Out(d) == Outcome(c, t, d, Strict)
Exact == made = 3 => /\ Cardinality({d \in 0..D - 1 : Out(d) = "full"}) = Kept(c, t)
                     /\ \A d \in 0..D - 1 : Out(d) \in {"full", Lost(c, t)}
ErrorsFull == made = 3 /\ t.err /\ ~t.disc => \A d \in 0..D - 1 : Out(d) = "full"
=============================================================================
