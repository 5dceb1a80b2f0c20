---------------------------------- MODULE ActiveMC ----------------------------------
(* The design: the set of running transactions, which starts and ends change at any  *)
(* time; a counting scan and a listing that walk through it entry by entry, letting   *)
(* others in between (the set may change under the walk); the scan alerts about and,   *)
(* if it may, ends what is too old.  The clock moves at any time.                       *)
EXTENDS Active
CONSTANTS MaxScans, MaxLists, Tx, MaxT, Y, R, S, Limit, Removes, Variant
VARIABLES active, born, now, ended,      \* ended: tx -> "" (not), "user", "stuck"
          spc, stodo, snow, counts, ssure, smay, slo, shi, seen, scans,
          lpc, ltodo, out, lsure, lmay, lists,
          alerts                          \* set of [tx, age, scan]
vars == <<active, born, now, ended, spc, stodo, snow, counts, ssure, smay, slo, shi, seen, scans, lpc, ltodo, out, lsure, lmay, lists, alerts>>
scan == <<spc, stodo, snow, counts, seen, scans>>
list == <<lpc, ltodo, out, lists>>
Age(x) == IF born[x] = 0 THEN 0 ELSE now - born[x] + 1     \* (born is the time plus one)
Init == /\ active = {} /\ born = [x \in Tx |-> 0] /\ now = 0 /\ ended = [x \in Tx |-> ""]
        /\ spc = "idle" /\ stodo = {} /\ snow = 0 /\ counts = <<0, 0, 0>> /\ ssure = {} /\ smay = {} /\ slo = [x \in Tx |-> 0] /\ shi = [x \in Tx |-> 0] /\ seen = 0 /\ scans = 0
        /\ lpc = "idle" /\ ltodo = {} /\ out = {} /\ lsure = {} /\ lmay = {} /\ lists = 0
        /\ alerts = {}
(* the bounds of the views under way                                                  *)
Views == /\ smay' = IF spc = "idle" THEN smay ELSE smay \cup active'
         /\ ssure' = IF spc = "idle" THEN ssure ELSE {x \in ssure : x \in active' \/ ended'[x] = "stuck"}
         /\ shi' = IF spc = "idle" THEN shi ELSE [x \in Tx |-> IF born'[x] = 0 THEN 0 ELSE Max(shi[x], now' - born'[x] + 1)]
         /\ UNCHANGED slo
         /\ lmay' = IF lpc = "idle" THEN lmay ELSE lmay \cup active'
         /\ lsure' = IF lpc = "idle" THEN lsure ELSE lsure \cap active'
(* ---------------------------------------------------------- the program            *)
Start(x) == /\ born[x] = 0 /\ born' = [born EXCEPT ![x] = now + 1] /\ active' = active \cup {x}
            /\ UNCHANGED <<now, ended, scan, list, alerts>> /\ Views
End(x) == /\ x \in active /\ active' = active \ {x} /\ ended' = [ended EXCEPT ![x] = "user"]
          /\ UNCHANGED <<born, now, scan, list, alerts>> /\ Views
Tick == now < MaxT /\ now' = now + 1 /\ UNCHANGED <<active, born, ended, scan, list, alerts>> /\ Views
(* ---------------------------------------------------------- the scan               *)
Scan == /\ spc = "idle" /\ scans < MaxScans /\ scans' = scans + 1 /\ spc' = "walk" /\ counts' = <<0, 0, 0>> /\ seen' = 0
        /\ stodo' = active /\ ssure' = active /\ smay' = active /\ snow' = now
        /\ slo' = [x \in Tx |-> Age(x)] /\ shi' = [x \in Tx |-> Age(x)]
        /\ UNCHANGED <<active, born, now, ended, list, lsure, lmay, alerts>>
At(x) == (IF Variant = "stale" THEN 0 ELSE snow) - born[x] + 1
Below(a, b) == IF Variant = "strict" THEN a < b ELSE a <= b
Bin(a) == IF Below(a, Y) THEN 1 ELSE IF Below(a, R) THEN 2 ELSE 3
Old(x) == CASE Variant = "reapslow" -> At(x) > R
            [] Variant = "atlimit" -> At(x) >= S
            [] OTHER -> At(x) > S
Visit(x) ==
    /\ spc = "walk" /\ x \in stodo /\ stodo' = stodo \ {x}
    /\ IF seen >= Limit THEN /\ spc' = "done" /\ UNCHANGED <<counts, seen, active, ended, alerts>>
       ELSE /\ seen' = seen + 1
            /\ counts' = [counts EXCEPT ![Bin(Max(0, At(x)))] = @ + 1]
            /\ IF Old(x)
               THEN /\ IF Removes /\ ended[x] = "" THEN active' = active \ {x} /\ ended' = [ended EXCEPT ![x] = "stuck"] ELSE UNCHANGED <<active, ended>>
                    /\ IF Variant = "quiet" /\ ~Removes THEN UNCHANGED alerts ELSE alerts' = alerts \cup {[tx |-> x, age |-> At(x), scan |-> scans]}
               ELSE UNCHANGED <<active, ended, alerts>>
            /\ spc' = IF Variant = "first" /\ Old(x) THEN "done" ELSE spc
    /\ UNCHANGED <<born, now, snow, scans, list>> /\ Views
ScanEnd == /\ spc = "walk" /\ stodo = {} /\ spc' = "done"
           /\ UNCHANGED <<active, born, now, ended, stodo, snow, counts, seen, scans, ssure, smay, slo, shi, list, lsure, lmay, alerts>>
ScanRest == /\ spc = "done" /\ spc' = "idle" /\ UNCHANGED <<active, born, now, ended, stodo, snow, counts, seen, scans, ssure, smay, slo, shi, list, lsure, lmay, alerts>>
(* ---------------------------------------------------------- the listing            *)
List == /\ lpc = "idle" /\ lists < MaxLists /\ lists' = lists + 1 /\ lpc' = "walk" /\ lsure' = active /\ lmay' = active
        /\ out' = {}
        /\ ltodo' = IF Variant = "cached" /\ lists > 0 THEN lmay ELSE active
        /\ UNCHANGED <<active, born, now, ended, scan, ssure, smay, slo, shi, alerts>>
Show(x) == /\ lpc = "walk" /\ x \in ltodo /\ ltodo' = ltodo \ {x}
           /\ IF Variant = "stops" /\ x \notin active THEN lpc' = "done" /\ UNCHANGED out ELSE out' = out \cup {x} /\ UNCHANGED lpc
           /\ UNCHANGED <<active, born, now, ended, scan, ssure, smay, slo, shi, lists, lsure, lmay, alerts>>
ListEnd == /\ lpc = "walk" /\ ltodo = {} /\ lpc' = "done"
           /\ UNCHANGED <<active, born, now, ended, scan, ssure, smay, slo, shi, ltodo, out, lists, lsure, lmay, alerts>>
ListRest == lpc = "done" /\ lpc' = "idle" /\ UNCHANGED <<active, born, now, ended, scan, ssure, smay, slo, shi, ltodo, out, lists, lsure, lmay, alerts>>
Next == (\E x \in Tx : Start(x) \/ End(x) \/ Visit(x) \/ Show(x)) \/ Tick \/ Scan \/ ScanEnd \/ ScanRest \/ List \/ ListEnd \/ ListRest
Spec == Init /\ [][Next]_vars /\ WF_vars(Scan) /\ WF_vars(ScanEnd) /\ WF_vars(ScanRest) /\ \A x \in Tx : WF_vars(Visit(x))
(* ---------------------------------------------------------- the properties         *)
Counted == spc = "done" => CountsOk(counts, ssure, smay, slo, shi, Y, R, Limit)
Listed == lpc = "done" => lsure \subseteq out /\ out \subseteq lmay
OnlyOld == /\ \A a \in alerts : Stuck(a.age, S) /\ a.age <= now - born[a.tx] + 1
           /\ \A x \in Tx : ended[x] = "stuck" => Removes /\ Stuck(Age(x), S)
Alerted == spc = "done" => \A x \in ssure : Stuck(slo[x], S) /\ Cardinality(smay) <= Limit =>
               /\ \E a \in alerts : a.tx = x /\ a.scan = scans
               /\ Removes => ended[x] # "" /\ x \notin active
=============================================================================
