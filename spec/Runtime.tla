-------------------------------- MODULE Runtime --------------------------------
(* The runtime counters (C18): a task that every so often reads the program's     *)
(* statistics (the clock, then the number of collections so far, then the number  *)
(* of goroutines), reports the difference to its previous reading and keeps the   *)
(* reading, while the program goes on collecting; beside it the task of the       *)
(* five-minute records.  Nothing may be lost or counted twice, whatever happens   *)
(* between any two steps.                                                         *)
(* Broken, one decision taken wrongly (each must be refuted):                     *)
(*   never    the reading is not kept: rates are those since the start            *)
(*   again    what is kept is read anew, after the record was made                *)
(*   shared   the five-minute task reads and keeps into the same place            *)
(*   period   the time since the last reading is taken to be the period           *)
EXTENDS Naturals, Sequences, TLC
CONSTANTS MaxGC, MaxT, MaxRecs, Period, Broken
VARIABLES now, gcs, pc, cur, prev, sum, recs, first, ok
vars == <<now, gcs, pc, cur, prev, sum, recs, first, ok>>
None == [t |-> 0, gc |-> 0, set |-> FALSE]
Init == /\ now = 1 /\ gcs = 0 /\ pc = "sleep" /\ cur = None /\ prev = None /\ sum = 0 /\ recs = 0 /\ first = None /\ ok = TRUE
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<gcs, pc, cur, prev, sum, recs, first, ok>>
Collect == gcs < MaxGC /\ gcs' = gcs + 1 /\ UNCHANGED <<now, pc, cur, prev, sum, recs, first, ok>>
(* two seconds after the last one, or later                                       *)
Clock == /\ pc = "sleep" /\ recs < MaxRecs /\ (prev.set => now > prev.t)
         /\ cur' = [t |-> now, gc |-> 0, set |-> TRUE] /\ pc' = "stats" /\ UNCHANGED <<now, gcs, prev, sum, recs, first, ok>>
Stats == pc = "stats" /\ cur' = [cur EXCEPT !.gc = gcs] /\ pc' = "report" /\ UNCHANGED <<now, gcs, prev, sum, recs, first, ok>>
(* rate * time is the number of collections between the two readings              *)
Report == /\ pc = "report"
          /\ sum' = IF prev.set THEN sum + (cur.gc - prev.gc) ELSE sum
          /\ first' = IF first.set THEN first ELSE cur
          /\ ok' = (ok /\ (prev.set /\ Broken = "period" => cur.t - prev.t = Period))
          /\ recs' = recs + 1 /\ pc' = "keep" /\ UNCHANGED <<now, gcs, cur, prev>>
Keep == /\ pc = "keep"
        /\ prev' = CASE Broken = "never" /\ prev.set -> prev
                     [] Broken = "again" -> [cur EXCEPT !.gc = gcs]
                     [] OTHER -> cur
        /\ pc' = "sleep" /\ UNCHANGED <<now, gcs, cur, sum, recs, first, ok>>
FiveMin == /\ pc = "sleep" /\ prev.set
           /\ prev' = IF Broken = "shared" THEN [t |-> now, gc |-> gcs, set |-> TRUE] ELSE prev
           /\ UNCHANGED <<now, gcs, pc, cur, sum, recs, first, ok>>
Next == Tick \/ Collect \/ Clock \/ Stats \/ Report \/ Keep \/ FiveMin
Spec == Init /\ [][Next]_vars
(* between two records: all that happened up to the last reading was reported     *)
Whole == pc = "sleep" /\ recs > 0 => sum = cur.gc - first.gc
Right == ok
=============================================================================
