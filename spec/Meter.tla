--------------------------------- MODULE Meter ---------------------------------
(* The ring of one-second buckets behind the published statistics (C09).  The     *)
(* clock moves by any amount between any two steps; hist is what really happened: *)
(* second -> number of completions in it.  Each operation computes its bucket     *)
(* (clearing those it passes) and then uses it, under one lock.                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS B, Threads, MaxT, MaxAdds, Gaps, Locked, ClearAll
VARIABLES now, table, mtime, mpos, hist, pc, loc, lock, adds, ok
vars == <<now, table, mtime, mpos, hist, pc, loc, lock, adds, ok>>
Init == /\ now = 0 /\ table = [i \in 0..B - 1 |-> 0] /\ mtime = 0 /\ mpos = 0 /\ hist = [s \in 0..MaxT |-> 0]
        /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> [pos |-> 0, v |-> 0, at |-> 0]]
        /\ lock = "" /\ adds = 0 /\ ok = TRUE
Tick == /\ \E g \in Gaps : now + g <= MaxT /\ now' = now + g
        /\ UNCHANGED <<table, mtime, mpos, hist, pc, loc, lock, adds, ok>>
Free(t) == ~Locked \/ lock = ""
Begin(t, what) == /\ pc[t] = "idle" /\ Free(t) /\ lock' = (IF Locked THEN t ELSE lock)
                  /\ pc' = [pc EXCEPT ![t] = what] /\ UNCHANGED <<now, table, mtime, mpos, hist, loc, ok>>
BeginAdd(t) == adds < MaxAdds /\ adds' = adds + 1 /\ Begin(t, "add")
BeginRead(t) == Begin(t, "read") /\ UNCHANGED adds
(* the buckets passed since the last use                                         *)
Passed == LET d == now - mtime IN
          IF d = 0 THEN {} ELSE IF ClearAll THEN {(mpos + i) % B : i \in 1..(IF d > B THEN B ELSE d)} ELSE {now % B}
Position(t) == /\ pc[t] \in {"add", "read"}
               /\ table' = [i \in 0..B - 1 |-> IF i \in Passed THEN 0 ELSE table[i]]
               /\ mtime' = now /\ mpos' = now % B
               /\ loc' = [loc EXCEPT ![t] = [pos |-> now % B, v |-> table'[now % B], at |-> now]]
               /\ pc' = [pc EXCEPT ![t] = IF pc[t] = "add" THEN "put" ELSE "sum"]
               /\ UNCHANGED <<now, hist, lock, adds, ok>>
Put(t) == /\ pc[t] = "put" /\ table' = [table EXCEPT ![loc[t].pos] = loc[t].v + 1]
          /\ hist' = [hist EXCEPT ![loc[t].at] = @ + 1]
          /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = (IF Locked THEN "" ELSE lock)
          /\ UNCHANGED <<now, mtime, mpos, loc, adds, ok>>
RECURSIVE Ring(_, _)
Ring(pos, n) == IF n = 0 THEN 0 ELSE table[pos] + Ring((pos + B - 1) % B, n - 1)
RECURSIVE True(_, _)
True(at, n) == IF n = 0 THEN 0 ELSE hist[at] + (IF at = 0 THEN 0 ELSE True(at - 1, n - 1))
(* every window up to the ring's length less one is exact                        *)
Sum(t) == /\ pc[t] = "sum"
          /\ ok' = (ok /\ \A n \in 1..B - 1 : Ring(loc[t].pos, n) = True(loc[t].at, n))
          /\ pc' = [pc EXCEPT ![t] = "idle"] /\ lock' = (IF Locked THEN "" ELSE lock)
          /\ UNCHANGED <<now, table, mtime, mpos, hist, loc, adds>>
Next == Tick \/ \E t \in Threads : BeginAdd(t) \/ BeginRead(t) \/ Position(t) \/ Put(t) \/ Sum(t)
Spec == Init /\ [][Next]_vars
Exact == ok
=============================================================================
