------------------------------- MODULE ProfTrace -------------------------------
(* The steps delivered for one transaction against the calls that made them     *)
(* (Profile).  A call is known by its begin and its end; the primitives it       *)
(* performs on the collector (add, push, pop, close) happen in between, each     *)
(* atomically.  The delivered steps say in which order: a completed step must    *)
(* be the next delivered one.                                                    *)
EXTENDS TraceLib
VARIABLES tr, l,
          todo,      \* thread -> primitives of its current call not performed yet
          next, stack, held, nested, closed, done,
          part, at, used,   \* which record is being consumed, how far, and those finished
          clock
vars == <<tr, l, todo, next, stack, held, nested, closed, done, part, at, used, clock>>
T == Traces[tr]
E == T.ev
e == E[l]
C == T.chunks
Init == /\ tr \in 1..NTraces /\ l = 1 /\ todo = << >> /\ next = 0 /\ stack = <<>> /\ held = << >> /\ nested = TRUE
        /\ closed = FALSE /\ done = 0 /\ part = 0 /\ at = 0 /\ used = {} /\ clock = 0
Now == clock
Innermost == IF stack = <<>> THEN 0 ELSE stack[Len(stack)]

(* the delivered step that comes next: in the record being consumed, or the    *)
(* first one of any record not consumed yet                                    *)
Places == IF part # 0 /\ at < Len(C[part]) THEN {<<part, at + 1>>}
          ELSE {<<i, 1>> : i \in {j \in DOMAIN C : Len(C[j]) > 0 /\ j \notin used /\ j # part}}
Consume(pl) == /\ part' = pl[1] /\ at' = pl[2]
               /\ used' = IF part # 0 /\ pl[1] # part THEN used \cup {part} ELSE used
               /\ done' = done + 1
Match(pl, want, idx, par) == LET s == C[pl[1]][pl[2]] IN s.s = want /\ s.i = idx /\ (par = -1 \/ s.p = par)

First(t) == todo[t][1]
Took(t) == todo' = [todo EXCEPT ![t] = Tail(@)]
(* what the step says: times are relative to the start of the transaction      *)
Timed(w, start, elapsed) == [w EXCEPT !.start = IF @ = -1 THEN start ELSE @, !.elapsed = IF @ = -999999 THEN elapsed ELSE @]
Prim(t) ==
    /\ t \in DOMAIN todo /\ todo[t] # <<>>
    /\ LET p == First(t) IN
       CASE closed \/ p.p = "nop" ->
              Took(t) /\ UNCHANGED <<next, stack, held, nested, closed, done, part, at, used>>
         [] ~closed /\ p.p = "add" ->
              /\ \E pl \in Places : Match(pl, Timed(p.s, Now, 0), next, IF nested THEN Innermost ELSE -1) /\ Consume(pl)
              /\ next' = next + 1 /\ Took(t) /\ UNCHANGED <<stack, held, nested, closed>>
         [] ~closed /\ p.p = "push" ->
              /\ held' = (p.id :> [i |-> next, p |-> IF nested THEN Innermost ELSE -1, at |-> Now]) @@ held
              /\ stack' = Append(stack, next) /\ next' = next + 1
              /\ Took(t) /\ UNCHANGED <<nested, closed, done, part, at, used>>
         [] ~closed /\ p.p = "pop" /\ p.id \in DOMAIN held ->
              LET h == held[p.id] IN
              /\ \E pl \in Places : Match(pl, Timed(p.s, h.at, Now - h.at), h.i, h.p) /\ Consume(pl)
              /\ nested' = (nested /\ h.i = Innermost)
              /\ stack' = SelectSeq(stack, LAMBDA x : x # h.i) /\ held' = [x \in DOMAIN held \ {p.id} |-> held[x]]
              /\ Took(t) /\ UNCHANGED <<next, closed>>
         [] ~closed /\ p.p = "pop" /\ p.id \notin DOMAIN held ->
              Took(t) /\ UNCHANGED <<next, stack, held, nested, closed, done, part, at, used>>
         [] ~closed /\ p.p = "close" ->
              /\ closed' = TRUE /\ Took(t) /\ UNCHANGED <<next, stack, held, nested, done, part, at, used>>
    /\ UNCHANGED <<tr, l, clock>>
(* of several ends at once one closes the profile, at any time before the last *)
(* of them returns                                                             *)
Ends(t) == t \in DOMAIN todo /\ \E i \in DOMAIN todo[t] : todo[t][i].p = "close"
Call == /\ l <= Len(E) /\ e.k = "call" /\ todo' = (e.th :> e.prims) @@ todo /\ l' = l + 1
        /\ UNCHANGED <<tr, next, stack, held, nested, closed, done, part, at, used, clock>>
Ret == /\ l <= Len(E) /\ e.k = "ret" /\ e.th \in DOMAIN todo
       /\ \/ todo[e.th] = <<>> \/ (Ends(e.th) /\ \E t \in DOMAIN todo \ {e.th} : Ends(t))
       /\ todo' = [t \in DOMAIN todo \ {e.th} |-> todo[t]] /\ l' = l + 1
       /\ UNCHANGED <<tr, next, stack, held, nested, closed, done, part, at, used, clock>>
Clock == /\ l <= Len(E) /\ e.k = "clock" /\ clock' = clock + e.ms /\ l' = l + 1
         /\ UNCHANGED <<tr, todo, next, stack, held, nested, closed, done, part, at, used>>
(* while the transaction runs: what fills a buffer has been delivered          *)
Flushed == /\ l <= Len(E) /\ e.k = "flushed" /\ e.n <= done /\ done - e.n < T.keep /\ l' = l + 1
           /\ UNCHANGED <<tr, todo, next, stack, held, nested, closed, done, part, at, used, clock>>
RECURSIVE SumLens(_)
SumLens(i) == IF i = 0 THEN 0 ELSE Len(C[i]) + SumLens(i - 1)
(* after the end: everything delivered was consumed, and the record agrees     *)
Record == /\ l <= Len(E) /\ e.k = "record" /\ closed
          /\ Places = {} /\ done = SumLens(Len(C))
          /\ e.count = done /\ e.size = SumSeq(T.sizes)
          /\ \A i \in DOMAIN C : Len(C[i]) <= T.max
          /\ l' = l + 1
          /\ UNCHANGED <<tr, todo, next, stack, held, nested, closed, done, part, at, used, clock>>
Next == Call \/ Ret \/ Clock \/ Flushed \/ Record \/ \E t \in DOMAIN todo : Prim(t)
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
