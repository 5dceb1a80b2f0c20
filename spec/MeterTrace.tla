------------------------------ MODULE MeterTrace ------------------------------
(* Histories of the service and value meters: completions, samples, reads and     *)
(* clock steps.  Every operation takes effect at once, some time between its      *)
(* call and its return; a read of N seconds reports exactly the current second    *)
(* and the N-1 before it.                                                         *)
EXTENDS TraceLib
VARIABLES tr, l, ms, svc, val, todo
vars == <<tr, l, ms, svc, val, todo>>
T == Traces[tr]
E == T.ev
e == E[l]
(* svc: completions by second; val: samples by second                            *)
Init == /\ tr \in 1..NTraces /\ l = 1 /\ ms = T.ms /\ svc = <<>> /\ val = <<>> /\ todo = << >>
Sec == ms \div 1000
(* oldest first; what no window can reach is dropped                             *)
Keep(f) == IF Len(f) > 400 THEN SelectSeq(f, LAMBDA x : x.s > Sec - 310) ELSE f
RECURSIVE TotalTo(_, _, _, _)
TotalTo(f, i, from, g) == IF i = 0 THEN 0 ELSE IF f[i].s < from THEN 0 ELSE f[i][g] + TotalTo(f, i - 1, from, g)
Total(f, from, g) == TotalTo(f, Len(f), from, g)
Put(f, x) == IF f # <<>> /\ f[Len(f)].s = x.s THEN [f EXCEPT ![Len(f)] = [k \in DOMAIN x |-> IF k = "s" THEN x.s ELSE x[k] + @[k]]] ELSE Append(Keep(f), x)
Cap(n) == IF n > 300 THEN 300 ELSE n
AddEff(op) == LET k == Opt(op, "times", 1) IN
              /\ svc' = Put(svc, [s |-> Sec, n |-> k, el |-> k * (IF op.el < 0 THEN 0 ELSE op.el), er |-> IF op.err THEN k ELSE 0])
              /\ UNCHANGED <<ms, val>>
VAddEff(op) == /\ val' = Put(val, [s |-> Sec, n |-> 1, sum |-> op.x]) /\ UNCHANGED <<ms, svc>>
(* r: what the read returned; count, err: recovered from the published ratios    *)
Svc(r, n) == LET w == Sec - Cap(n) + 1 c == Total(svc, w, "n") IN
             /\ r.exact /\ r.count = c
             /\ r.elapsed = (IF c = 0 THEN 0 ELSE Total(svc, w, "el") \div c)
             /\ r.err = Total(svc, w, "er")
Abs(x) == IF x < 0 THEN -x ELSE x
Val(r, n, v) == LET w == Sec - Cap(n) + 1 c == Total(v, w, "n") s == Total(v, w, "sum") IN
             /\ r.exact /\ (Has(r, "sum") => r.sum = s)
             /\ (IF c = 0 THEN r.avg1000 = 0 ELSE Abs(s * 1000 - r.avg1000 * c) <= c)
GetEff(op, r) == Svc(r, op.n) /\ UNCHANGED <<ms, svc, val>>
VGetEff(op, r) == Val(r, op.n, val) /\ UNCHANGED <<ms, svc, val>>
(* a counter record: it samples the active count (real time) and reports both    *)
PackEff(op, r) == LET nv == Put(val, [s |-> Sec, n |-> 1, sum |-> op.active]) IN
                  /\ Svc(r, op.n)
                  /\ (IF op.samples THEN Val(r, op.n, nv) /\ val' = nv ELSE (op.avg => Val(r, op.n, val)) /\ UNCHANGED val)
                  /\ UNCHANGED <<ms, svc>>
Effect(op, r) == \/ op.o = "add" /\ AddEff(op)
                 \/ op.o = "vadd" /\ VAddEff(op)
                 \/ op.o = "get" /\ GetEff(op, r)
                 \/ op.o = "vget" /\ VGetEff(op, r)
                 \/ op.o = "pack" /\ PackEff(op, r)
                 \/ op.o = "tick" /\ ms' = ms + op.ms /\ UNCHANGED <<svc, val>>
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
(* the result is known at the call (the trace is complete), so an operation takes *)
(* effect only where it explains its result                                       *)
Call == /\ l <= Len(E) /\ e.k = "call" /\ todo' = (e.th :> [done |-> FALSE, op |-> e.op, r |-> e.r]) @@ todo /\ Step /\ UNCHANGED <<ms, svc, val>>
Do == \E th \in DOMAIN todo : /\ ~todo[th].done /\ Effect(todo[th].op, todo[th].r)
                              /\ todo' = [todo EXCEPT ![th].done = TRUE] /\ UNCHANGED <<tr, l>>
Ret == /\ l <= Len(E) /\ e.k = "ret" /\ e.th \in DOMAIN todo /\ todo[e.th].done
       /\ todo' = [x \in DOMAIN todo \ {e.th} |-> todo[x]] /\ Step /\ UNCHANGED <<ms, svc, val>>
Next == Call \/ Do \/ Ret
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
