-------------------------------- MODULE ConfTrace --------------------------------
(* Edits of the configuration file, refreshes, saves and what was in force then.   *)
(* T.env: the environment, T.host: the host's name.  A file is                      *)
(*   [st: "ok", l: lines], "bad" (not a properties file), "none" or "dir".          *)
EXTENDS TraceLib, Conf
VARIABLES tr, l, file, fresh,  \* the file, changed since the agent last read it
          val,                 \* the values in force
          runs, first          \* runs of the observers due, and possible (the file is absent)
vars == <<tr, l, file, fresh, val, runs, first>>
T == Traces[tr]
E == T.ev
e == E[l]
Good(f) == IF f.st = "ok" THEN Sound(f.l, T.env) ELSE f.st = "none"
Of(f) == IF f.st = "ok" THEN Effective(f.l, T.env) ELSE Effective(<< >>, T.env)
(* the agent started with the first file                                           *)
Init == /\ tr \in 1..NTraces /\ l = 1 /\ file = T.file /\ fresh = ~Good(T.file) /\ runs = 0 /\ first = 0
        /\ val = Of(IF Good(T.file) THEN T.file ELSE [st |-> "none"])
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
Edit == Step /\ e.k = "edit" /\ file' = e.f /\ fresh' = TRUE /\ UNCHANGED <<val, runs, first>>
(* what n refreshes, one after the other or at once, make of file f (fr: it was     *)
(* changed): a change is applied once; nothing tells whether an absent file is new   *)
Loaded(f, fr, n) ==
    IF f.st = "none" THEN IF Of(f) = val /\ ~fr THEN [v |-> val, fr |-> FALSE, r |-> 0, x |-> n] ELSE [v |-> Of(f), fr |-> FALSE, r |-> 1, x |-> n - 1]
    ELSE IF fr /\ Good(f) THEN [v |-> Of(f), fr |-> FALSE, r |-> 1, x |-> 0]
    ELSE [v |-> val, fr |-> fr, r |-> 0, x |-> 0]
Take(a) == val' = a.v /\ fresh' = a.fr /\ runs' = runs + a.r /\ first' = first + a.x
Refresh == Step /\ e.k = "refresh" /\ (\E a \in {Loaded(file, fresh, e.n)} : Take(a)) /\ UNCHANGED file
(* a refresh while the file is changed: the old file is read, or the new one, or    *)
(* the new one as if it were the old one (and again later)                          *)
Race == /\ Step /\ e.k = "race" /\ file' = e.f
        /\ \E a \in {[Loaded(file, fresh, 1) EXCEPT !.fr = TRUE], Loaded(e.f, TRUE, 1)}
                     \cup (IF (fresh \/ file.st = "none") /\ Good(e.f) THEN {[v |-> Of(e.f), fr |-> TRUE, r |-> 1, x |-> 0]} ELSE {}) : Take(a)
(* every observer ran as often as due since it was asked last, the last time with  *)
(* the values in force                                                              *)
Notes == /\ Step /\ e.k = "notes"
         /\ (\A i \in DOMAIN e.n : e.n[i] >= runs /\ e.n[i] <= runs + first) = TRUE
         /\ (\A i \in DOMAIN e.saw : \A o \in Options : e.saw[i][o] = val[o]) = TRUE
         /\ runs' = 0 /\ first' = 0 /\ UNCHANGED <<file, fresh, val>>
(* what the agent's parts read, and what it lists                                   *)
Values == /\ Step /\ e.k = "values"
          /\ (\A o \in Options : e.v[o] = val[o]) = TRUE
          /\ e.objname = "/" \o T.host \o "/" \o val["obj_name"] /\ e.hashok
          /\ UNCHANGED <<file, fresh, val, runs, first>>
Keys(q) == {q[i].k : i \in DOMAIN q}
Listing == /\ Step /\ e.k = "list"
           /\ Options \subseteq Keys(e.q) /\ Cardinality(Keys(e.q)) = Len(e.q)
           /\ (\A i \in DOMAIN e.q : e.q[i].k \in Options => (e.q[i].v = val[e.q[i].k] /\ e.q[i].d = Default(e.q[i].k))) = TRUE
           /\ UNCHANGED <<file, fresh, val, runs, first>>
(* the text shown is that of the file                                               *)
Text == Step /\ e.k = "text" /\ e.same /\ UNCHANGED <<file, fresh, val, runs, first>>
(* saved from the collector: confirmed iff stored, and then in force                *)
Save == /\ Step /\ e.k = "save"
        /\ IF file.st = "dir" THEN ~e.ok /\ e.kept /\ UNCHANGED <<file, fresh, val, runs, first>>
           ELSE /\ e.ok /\ e.stored /\ file' = e.f
                /\ IF Good(e.f) THEN val' = Of(e.f) /\ fresh' = FALSE /\ runs' = runs + 1
                   ELSE fresh' = TRUE /\ UNCHANGED <<val, runs>>
                /\ UNCHANGED first
Next == Edit \/ Refresh \/ Race \/ Notes \/ Values \/ Listing \/ Text \/ Save
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
