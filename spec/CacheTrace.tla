------------------------------ MODULE CacheTrace ------------------------------
(* Linearizability of recorded cache histories: TLC searches for instants, one *)
(* between the call and the return of every operation, that explain all        *)
(* results.  A listing is not atomic: it returns values that were present at   *)
(* some instant of the call and all that were present throughout it.           *)
EXTENDS Cache, TraceLib

VARIABLES tr, l, c, pend
vars == <<tr, l, c, pend>>
T == Traces[tr]
E == T.ev
Threads == 0..(T.threads - 1)
Idle == [st |-> "idle"]

Init == /\ tr \in 1..NTraces
        /\ l = 1
        /\ c = <<>>
        /\ pend = [t \in Threads |-> Idle]

Call == /\ l <= Len(E) /\ E[l].k = "call"
        /\ pend[E[l].th] = Idle
        /\ pend' = [pend EXCEPT ![E[l].th] =
              [st |-> "called", op |-> E[l].op,
               may |-> EntriesOf(c), must |-> EntriesOf(c), res |-> Nil]]
        /\ l' = l + 1 /\ UNCHANGED <<tr, c>>

Linearize(t) ==
    /\ pend[t].st = "called" /\ pend[t].op.o # "values"
    /\ LET op == pend[t].op
           d == After(T.variant, T.bound, c, op)
       IN  /\ c' = d
           /\ pend' = [u \in Threads |->
                 IF u = t THEN [pend[t] EXCEPT !.st = "done", !.res = Result(c, op)]
                 ELSE IF pend[u].st = "called" /\ pend[u].op.o = "values"
                      THEN [pend[u] EXCEPT !.may = @ \cup EntriesOf(d), !.must = @ \cap EntriesOf(d)]
                      ELSE pend[u]]
    /\ UNCHANGED <<tr, l>>

ValueSet(s) == {e.v : e \in s}
Return ==
    /\ l <= Len(E) /\ E[l].k = "ret"
    /\ LET t == E[l].th  p == pend[t]
       IN  /\ IF p.st # "idle" /\ p.op.o = "values"
              THEN /\ p.st = "called"
                   /\ SetOf(E[l].r) \subseteq ValueSet(p.may)
                   /\ ValueSet(p.must) \subseteq SetOf(E[l].r)
                   /\ Cardinality(SetOf(E[l].r)) = Len(E[l].r)
              ELSE /\ p.st = "done"
                   /\ p.op.o \in {"get", "contains", "size", "empty"} => p.res = E[l].r
           /\ pend' = [pend EXCEPT ![t] = Idle]
    /\ l' = l + 1 /\ UNCHANGED <<tr, c>>

Next == (Call \/ Return \/ \E t \in Threads : Linearize(t)) /\ WellFormed(T.bound, c')
Spec == Init /\ [][Next]_vars

ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
