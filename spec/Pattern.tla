--------------------------------- MODULE Pattern ---------------------------------
(* Service-name patterns (C11).  Matches is what a pattern means; Decide is the    *)
(* design that implements it: the pattern is cut at its stars once and the pieces  *)
(* are looked for in the name (a piece at a fixed end must sit there, the others   *)
(* at their earliest place).                                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
LOCAL Min(a, b) == IF a < b THEN a ELSE b
(* ------------------------------------------------------------ meaning *)
RECURSIVE Glob(_, _, _, _)
Glob(p, i, s, j) ==
    IF i > Len(p) THEN j > Len(s)
    ELSE IF p[i] = "*" THEN \E k \in j..Len(s) + 1 : Glob(p, i + 1, s, k)
    ELSE j <= Len(s) /\ p[i] = s[j] /\ Glob(p, i + 1, s, j + 1)
Matches(p, s) == s # <<>> /\ Glob(p, 1, s, 1)
MatchesList(ps, s) == \E i \in DOMAIN ps : Matches(ps[i], s)
Stars(p) == {i \in DOMAIN p : p[i] = "*"}
(* what the property speaks of: a leading, a trailing and at most one inner star   *)
InScope(p) == LET n == Len(p) IN Cardinality({i \in Stars(p) : i # 1 /\ i # n}) <= 1
(* ------------------------------------------------------------ design *)
RECURSIVE Cut(_, _)
Cut(p, cur) == IF p = <<>> THEN <<cur>> ELSE IF Head(p) = "*" THEN <<cur>> \o Cut(Tail(p), <<>>) ELSE Cut(Tail(p), Append(cur, Head(p)))
Sits(x, s, at) == at >= 1 /\ at + Len(x) - 1 <= Len(s) /\ \A i \in DOMAIN x : s[at + i - 1] = x[i]
Earliest(x, s, from) == LET c == {k \in from..Len(s) + 1 : Sits(x, s, k)} IN
                        IF c = {} THEN 0 ELSE CHOOSE k \in c : \A m \in c : k <= m
RECURSIVE Floating(_, _, _)
(* the first place after the floating pieces, 0 if one is not there                *)
Floating(xs, s, from) == IF xs = <<>> THEN from
                         ELSE LET k == Earliest(Head(xs), s, from) IN IF k = 0 THEN 0 ELSE Floating(Tail(xs), s, k + Len(Head(xs)))
DecideWith(p, s, careful) ==
    LET xs == Cut(p, <<>>) n == Len(xs) IN
    IF s = <<>> THEN FALSE
    ELSE IF n = 1 THEN p = s
    ELSE LET first == xs[1] last == xs[n]
             from == Len(first) + 1
             to == Len(s) - Len(last) + 1 IN
         /\ Sits(first, s, 1) /\ Sits(last, s, to)
         /\ IF careful THEN from <= to /\ LET k == Floating(SubSeq(xs, 2, n - 1), SubSeq(s, 1, to - 1), from) IN k # 0
            ELSE \A i \in 2..n - 1 : Earliest(xs[i], s, 1) # 0
Decide(p, s) == DecideWith(p, s, TRUE)
=============================================================================
