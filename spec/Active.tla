---------------------------------- MODULE Active ----------------------------------
(* What a view of the running transactions may say (C16), given what is known       *)
(* about the time it was taken in: `sure' ran throughout, `may' ran at some time     *)
(* during it, and an age lies between lo and hi.  A view taken in an instant has     *)
(* sure = may and lo = hi.                                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Class(age, y, r) == IF age <= y THEN 1 ELSE IF age <= r THEN 2 ELSE 3
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
(* the counts: everything that ran, at most Limit of it, each in its class           *)
CountsOk(n, sure, may, lo, hi, y, r, Limit) ==
    LET over == Max(0, Cardinality(may) - Limit)      \* as many may have been left out
        Could(x, c) == Class(lo[x], y, r) <= c /\ c <= Class(hi[x], y, r)
        Must(x, c) == Class(lo[x], y, r) = c /\ Class(hi[x], y, r) = c
        sum == n[1] + n[2] + n[3]
    IN  /\ sum <= Limit /\ sum <= Cardinality(may)
        /\ sum >= Min(Limit, Cardinality(sure))
        /\ \A c \in 1..3 : /\ n[c] <= Cardinality({x \in may : Could(x, c)})
                           /\ n[c] >= Cardinality({x \in sure : Must(x, c)}) - over
Stuck(age, s) == age > s
=============================================================================
