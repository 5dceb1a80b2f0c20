----------------------------- MODULE RuntimeTrace -----------------------------
(* Histories of a program whose collections, goroutines and heap are under         *)
(* control, and the real-time counter records its agent sent.  Between two events  *)
(* of kind "reads" the clock stands still except for "tick"; during one, records   *)
(* were taken at one time, so all but the first of them have no time to divide by. *)
(*   gc    n collections whose pauses took ns (hundreds of ns) together            *)
(*   park  n goroutines more (or less)                                             *)
(*   tick  s tenths of a second                                                     *)
(*   reads the records, and what the program saw before and after (lo, hi)         *)
EXTENDS TraceLib
VARIABLES tr, l, gcs, ns, s, par, known
vars == <<tr, l, gcs, ns, s, par, known>>
T == Traces[tr]
E == T.ev
e == E[l]
Init == tr \in 1..NTraces /\ l = 1 /\ gcs = 0 /\ ns = 0 /\ s = 0 /\ par = T.par /\ known = FALSE
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
Gc == e.k = "gc" /\ gcs' = gcs + e.n /\ ns' = ns + e.ns /\ UNCHANGED <<s, par, known>>
Park == e.k = "park" /\ par' = par + e.n /\ UNCHANGED <<gcs, ns, s, known>>
Tick == e.k = "tick" /\ s' = s + e.s /\ UNCHANGED <<gcs, ns, par, known>>
Abs(x) == IF x < 0 THEN -x ELSE x
(* goroutines of the agent come and go with the records it sends                  *)
Slack == 15
Here(r) == /\ r.labels /\ Abs(r.g - par) <= Slack
           /\ e.lo.heap <= r.heap /\ r.heap <= e.hi.heap
           /\ e.lo.cgo <= r.cgo /\ r.cgo <= e.hi.cgo
(* rates: millionths per second, and hundreds of ns per second                    *)
Rates(r) == r.fin /\ Abs(r.gc - (gcs * 10000000) \div s) <= 11 /\ Abs(r.pause - (ns * 10) \div s) <= 11 + 100 \div s
Still(r) == ~r.fin \/ (r.gc = 0 /\ r.pause = 0)
Reads == /\ e.k = "reads" /\ Len(e.recs) > 0
         /\ \A i \in DOMAIN e.recs : Here(e.recs[i])
         /\ (known /\ s > 0 => \E i \in DOMAIN e.recs : Rates(e.recs[i]) /\ \A j \in DOMAIN e.recs : j # i => Still(e.recs[j]))
         /\ known' = TRUE /\ gcs' = 0 /\ ns' = 0 /\ s' = 0 /\ UNCHANGED par
Next == Step /\ (Gc \/ Park \/ Tick \/ Reads)
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
