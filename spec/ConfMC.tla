--------------------------------- MODULE ConfMC ---------------------------------
(* The design of reloading: the periodic refresh and the collector's saves run     *)
(* beside each other and beside edits of the file.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxEdit, MaxSave, Variant
VARIABLES file,      \* [c: content, m: modification time]; content 0: cannot be parsed
          clock, tick,      \* of the file system; whether it moved since the last write
          lock, pc, seen,   \* per thread: what it read
          val, last,        \* values in force, time of the file they are from (0: none)
          list,             \* the values listed
          noted,            \* runs of the observer with the values then
          saved, edits, saves, applied
vars == <<file, clock, tick, lock, pc, seen, val, last, list, noted, saved, edits, saves, applied>>
Threads == {"loop", "save"}
Contents == {0, 1, 2}
Nothing == [c |-> 0, m |-> 0]
Init == /\ file = [c |-> 1, m |-> 1] /\ clock = 1 /\ tick = FALSE /\ lock = "" /\ pc = [t \in Threads |-> "idle"] /\ seen = [t \in Threads |-> Nothing]
        /\ val = 1 /\ last = 1 /\ list = 1 /\ noted = << >> /\ saved = 0 /\ edits = 0 /\ saves = 0 /\ applied = 0
Set(t, p) == pc' = [pc EXCEPT ![t] = p]
Keep == UNCHANGED <<clock, tick, edits, saves>>
(* an edit is later, by the file system's clock, than what was written before       *)
Edit == /\ edits < MaxEdit /\ edits' = edits + 1 /\ tick
        /\ \E c \in Contents : file' = [c |-> c, m |-> clock]
        /\ tick' = FALSE /\ saved' = 0
        /\ UNCHANGED <<clock, lock, pc, seen, val, last, list, noted, saves, applied>>
Tick == ~tick /\ clock < 1 + MaxEdit + MaxSave /\ clock' = clock + 1 /\ tick' = TRUE
        /\ UNCHANGED <<file, lock, pc, seen, val, last, list, noted, saved, edits, saves, applied>>
(* ------------------------------------------------------------ refreshing       *)
Start == /\ pc["loop"] = "idle" /\ Set("loop", "lock") /\ Keep /\ UNCHANGED <<file, lock, seen, val, last, list, noted, saved, applied>>
Lock(t) == /\ pc[t] = "lock"
           /\ IF Variant = "nolock" THEN UNCHANGED lock ELSE lock = "" /\ lock' = t
           /\ Set(t, IF Variant = "statlate" THEN "load" ELSE "stat") /\ Keep /\ UNCHANGED <<file, seen, val, last, list, noted, saved, applied>>
Stat(t) == /\ pc[t] = "stat"
           /\ IF Variant = "statlate"
              THEN seen' = [seen EXCEPT ![t].m = file.m] /\ Set(t, IF file.m = last \/ seen[t].c = 0 THEN "unlock" ELSE "apply")
              ELSE seen' = [seen EXCEPT ![t].m = file.m] /\ Set(t, IF file.m = last THEN "unlock" ELSE "load")
           /\ Keep /\ UNCHANGED <<file, lock, val, last, list, noted, saved, applied>>
Load(t) == /\ pc[t] = "load" /\ seen' = [seen EXCEPT ![t].c = file.c]
           /\ Set(t, IF Variant = "statlate" THEN "stat" ELSE IF file.c = 0 THEN "unlock" ELSE IF Variant = "notifyfirst" THEN "note" ELSE "apply")
           /\ Keep /\ UNCHANGED <<file, lock, val, last, list, noted, saved, applied>>
Apply(t) == /\ pc[t] = "apply" /\ val' = seen[t].c /\ applied' = applied + 1
            /\ Set(t, "list") /\ Keep /\ UNCHANGED <<file, lock, seen, last, list, noted, saved>>
List(t) == /\ pc[t] = "list" /\ list' = seen[t].c /\ last' = seen[t].m /\ Set(t, IF Variant = "notifyfirst" THEN "unlock" ELSE "note")
           /\ Keep /\ UNCHANGED <<file, lock, seen, val, noted, saved, applied>>
Note(t) == /\ pc[t] = "note" /\ noted' = Append(noted, <<val, list, seen[t].c>>) /\ Set(t, IF Variant = "notifyfirst" THEN "apply" ELSE "unlock")
           /\ Keep /\ UNCHANGED <<file, lock, seen, val, last, list, saved, applied>>
Unlock(t) == /\ pc[t] = "unlock" /\ (IF Variant = "nolock" THEN UNCHANGED lock ELSE lock' = "")
             /\ Set(t, IF t = "save" THEN "confirm" ELSE "idle") /\ Keep /\ UNCHANGED <<file, seen, val, last, list, noted, saved, applied>>
(* ------------------------------------------------------------ saving           *)
Write == /\ pc["save"] = "idle" /\ saves < MaxSave /\ saves' = saves + 1
         /\ (Variant = "nolock" \/ lock = "") = TRUE
         /\ \E c \in Contents : file' = [c |-> c, m |-> clock] /\ saved' = c
         /\ tick' = FALSE
         /\ last' = (IF Variant = "keeptime" THEN last ELSE 0)
         /\ Set("save", "lock") /\ UNCHANGED <<clock, lock, seen, val, list, noted, edits, applied>>
Confirm == /\ pc["save"] = "confirm" /\ Set("save", "idle") /\ saved' = 0 /\ Keep /\ UNCHANGED <<file, lock, seen, val, last, list, noted, applied>>
Steps(t) == Lock(t) \/ Stat(t) \/ Load(t) \/ Apply(t) \/ List(t) \/ Note(t) \/ Unlock(t)
Next == Edit \/ Tick \/ Start \/ Write \/ Confirm \/ \E t \in Threads : Steps(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ \A t \in Threads : WF_vars(Steps(t)) /\ WF_vars(Confirm)
(* ------------------------------------------------------------ properties       *)
(* observers see the new values                                                     *)
Informed == \A i \in DOMAIN noted : noted[i][1] = noted[i][3] /\ noted[i][2] = noted[i][3]
(* and run once for every change applied                                            *)
Quiet == \A t \in Threads : pc[t] \in {"idle", "lock", "confirm"}
Once == Quiet => Len(noted) = applied
Listed == Quiet => list = val
(* a save is in force when it is confirmed (unless the file was changed since)      *)
Confirmed == pc["save"] = "confirm" /\ saved # 0 => val = saved
(* no more is applied than there were changes                                        *)
Few == applied <= edits + saves
(* the values follow the file                                                       *)
Follows == []<>(file.c = 0 \/ val = file.c)
=============================================================================
