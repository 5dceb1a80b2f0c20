------------------------------- MODULE RecordMC -------------------------------
(* The design of Record, exhaustively for small programs: what a record says   *)
(* is compared with the history of the calls made, stated independently.       *)
EXTENDS Record
CONSTANTS Txs, Texts0, MaxCalls
VARIABLES st, hist, now
vars == <<st, hist, now>>
NoTx == [none |-> TRUE]
Init == st = [x \in Txs |-> NoTx] /\ hist = [x \in Txs |-> <<>>] /\ now = 0
Total == LET RECURSIVE S(_) S(X) == IF X = {} THEN 0 ELSE LET x == CHOOSE y \in X : TRUE IN Len(hist[x]) + S(X \ {x}) IN S(Txs)
More == Total < MaxCalls
On(x) == st[x] # NoTx
Do(x, r, h) == st' = [st EXCEPT ![x] = r] /\ hist' = [hist EXCEPT ![x] = Append(@, h)] /\ UNCHANGED now
Start == More /\ \E x \in Txs, xt \in {0, 1} : ~On(x) /\ Do(x, New(xt, "s", "1.1.1.1", "u", "r", now), [k |-> "start", at |-> now])
Fork == More /\ \E x, p \in Txs : ~On(x) /\ On(p) /\ Do(x, Chained(st[p], "g", now), [k |-> "start", at |-> now])
Err == More /\ \E x \in Txs, m \in Texts0 : On(x) /\ Do(x, FirstError(st[x], m), [k |-> "err", m |-> m])
Force == More /\ \E x \in Txs, m \in Texts0 \cup {""} : On(x) /\ Do(x, ForceError(st[x], m), [k |-> "errf", m |-> m])
Name == More /\ \E x \in Txs, m \in Texts0 : On(x) /\ Do(x, Rename(st[x], m), [k |-> "name", m |-> m])
Done == More /\ \E x \in Txs, m \in Texts0 \cup {""} : On(x) /\ Do(x, CallDone(st[x], 2, m), [k |-> "api", m |-> m])
Status == More /\ \E x \in Txs : On(x) /\ Do(x, SetStatus(st[x], 200), [k |-> "status"])
Tick == More /\ now < 2 /\ now' = now + 1 /\ UNCHANGED <<st, hist>>
Next == Start \/ Fork \/ Err \/ Force \/ Name \/ Done \/ Status \/ Tick
Spec == Init /\ [][Next]_vars

Errs(h) == {i \in DOMAIN h : h[i].k \in {"err", "api"} /\ h[i].m # ""}
Forced(h) == {i \in DOMAIN h : h[i].k = "errf"}
Last(S) == CHOOSE i \in S : \A j \in S : j <= i
First(S) == CHOOSE i \in S : \A j \in S : i <= j
(* the error of the record, from the history: the last forced one, unless it is *)
(* empty or there is none: then the first error after it                        *)
ErrorOf(h) == LET f == IF Forced(h) = {} THEN 0 ELSE Last(Forced(h))
                  after == {i \in Errs(h) : i > f}
              IN  IF f > 0 /\ h[f].m # "" THEN h[f].m ELSE IF after = {} THEN "" ELSE h[First(after)].m
NameOf(h) == LET S == {i \in DOMAIN h : h[i].k = "name"} IN IF S = {} THEN {"s", "g"} ELSE {h[Last(S)].m}
Faithful == \A x \in Txs : On(x) =>
    LET r == RecordOf(st[x], now)
        h == hist[x]
        n == Cardinality({i \in DOMAIN h : h[i].k = "api"})
    IN  /\ r.error = ErrorOf(h) /\ r.name \in NameOf(h) /\ r.apis = n /\ r.apitime = 2 * n
        /\ r.elapsed = now - h[1].at
        /\ r.status = IF \E i \in DOMAIN h : h[i].k = "status" THEN 200 ELSE 0
(* a call on one transaction leaves the others alone                          *)
Isolated == [][\A x, y \in Txs : x # y /\ hist[x] # hist'[x] => st[y] = st'[y]]_vars
=============================================================================
