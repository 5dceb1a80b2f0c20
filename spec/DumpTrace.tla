-------------------------------- MODULE DumpTrace --------------------------------
(* What the collector's dump commands did, with the program changing files before  *)
(* and while they are answered.  cur: the states every file may be in now; acc:    *)
(* the states it may have had since the earliest unanswered request.                *)
EXTENDS TraceLib, Dump
VARIABLES tr, l, cur, acc, calls, due
vars == <<tr, l, cur, acc, calls, due>>
T == Traces[tr]
E == T.ev
e == E[l]
Progress == ProgressOf(tr, l)
Done == Report
ASSUME InitProgress
PP == SetOf(T.pp)                    \* paths of files named as binary dumps
Init == tr \in 1..NTraces /\ l = 1 /\ cur = << >> /\ acc = << >> /\ calls = << >> /\ due = << >>
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
St == [v |-> e.v, n |-> e.n]
At(f, p) == IF p \in DOMAIN f THEN f[p] ELSE {Gone}
Possible(p, s) == /\ cur' = (p :> s) @@ cur
                  /\ acc' = IF calls = << >> THEN acc ELSE (p :> (At(acc, p) \cup s)) @@ acc
(* a change begins: the file is as it was or as it will be; it is done             *)
Begin == Step /\ e.k = "b" /\ Possible(e.path, At(cur, e.path) \cup {St}) /\ UNCHANGED <<calls, due>>
End == Step /\ e.k = "e" /\ Possible(e.path, {St}) /\ UNCHANGED <<calls, due>>
Dir(cmd) == IF cmd \in {"list", "stream", "dump"} THEN T.dump ELSE T.binary
Ask == /\ Step /\ e.k = "ask" /\ calls' = Append(calls, e)
       /\ acc' = IF calls = << >> THEN cur ELSE acc
       /\ due' = IF e.cmd = "profile" THEN Append(due, e.makes) ELSE due
       /\ UNCHANGED cur
q == calls[1]
P == Lead(Dir(q.cmd), q.name)
Inside == Below(Dir(q.cmd), P)
Was == At(acc, P)
Files(dir, bin) == {p \in DOMAIN acc : Below(dir, p) /\ There(acc[p]) # {} /\ (bin => p \in PP)}
Base(p) == p[Len(p)]
(* a file of a subdirectory may be shown under its own name                          *)
ListOk(dir, bin) ==
    LET fs == Files(dir, bin)
        shown == {x \in SetOf(e.files) : ~\E i \in DOMAIN due : due[i].kind = x.kind /\ due[i].dir = dir}   \* (profiles under way)
        names == {x.name : x \in shown}
        kids == {p \in fs : Len(p) = Len(dir) + 1}
    IN  /\ \A x \in shown : \E p \in fs : /\ (Base(p) = x.name \/ SubSeq(p, Len(dir) + 1, Len(p)) = x.rel)
                                             /\ Sizes(acc[p], x.n)
        /\ \A nm \in names : Cardinality({i \in DOMAIN e.files : e.files[i].name = nm}) <= Cardinality({p \in fs : Base(p) = nm})
        /\ \A p \in kids : MayMiss(acc[p]) \/ Base(p) \in names
StreamOk == LET vs == SetOf(e.vs) IN
            /\ e.whole
            /\ IF Inside /\ Plain(q.name) /\ (q.cmd = "stream" \/ P \in PP) THEN Content(Was, vs, e.n)
               ELSE e.n = 0 \/ (Inside /\ Content(Was, vs, e.n))
DeleteOk == LET gone == SetOf(e.changed) IN
            IF e.ok THEN (e.seen => gone = {P}) /\ Inside /\ There(Was) # {}
            ELSE (e.seen => gone = {}) /\ ~(Inside /\ Plain(q.name) /\ P \in PP /\ ~MayMiss(Was))
DumpOk == IF e.path = << >> THEN T.refuses
          ELSE /\ Below(T.dump, e.path) /\ e.missing = 0 /\ e.stale = 0 /\ e.whole /\ e.n > 0
               /\ (e.seen => SetOf(e.changed) = {e.path})
Nothing == e.seen => SetOf(e.changed) = {}
Answer == /\ Step /\ e.k = "ans" /\ calls # << >>
          /\ (CASE q.cmd = "list" -> ListOk(T.dump, FALSE) /\ Nothing
                [] q.cmd = "blist" -> ListOk(T.binary, TRUE) /\ Nothing
                [] q.cmd \in {"stream", "download"} -> StreamOk /\ Nothing
                [] q.cmd = "delete" -> DeleteOk
                [] q.cmd = "dump" -> DumpOk
                [] q.cmd = "profile" -> e.ok /\ Nothing) = TRUE
          /\ calls' = Tail(calls)
          /\ cur' = CASE q.cmd = "delete" /\ e.ok -> (P :> IF Cardinality(At(cur, P)) > 1 THEN At(cur, P) ELSE {Gone}) @@ cur   \* (it may come again while others work)
                      [] q.cmd = "dump" /\ e.path # << >> -> (e.path :> {[v |-> e.v, n |-> e.n]}) @@ cur
                      [] OTHER -> cur
          /\ acc' = IF Len(calls) = 1 THEN << >> ELSE acc
          /\ UNCHANGED due
(* a profile asked for appears, once it has been taken, in its directory           *)
Found == /\ Step /\ e.k = "found"
         /\ \E i \in DOMAIN due : /\ due[i].kind = e.kind /\ due[i].dir = SubSeq(e.path, 1, Len(e.path) - 1)
                                   /\ due' = [j \in 1..(Len(due) - 1) |-> IF j < i THEN due[j] ELSE due[j + 1]]
         /\ e.whole /\ cur' = (e.path :> {St}) @@ cur /\ UNCHANGED <<acc, calls>>
Rest == Step /\ e.k = "rest" /\ calls = << >> /\ due = << >> /\ UNCHANGED <<cur, acc, calls, due>>
Next == Begin \/ End \/ Ask \/ Answer \/ Found \/ Rest
Spec == Init /\ [][Next]_vars
=============================================================================
