---------------------------------- MODULE ActiveTrace ----------------------------------
(* Recorded histories of running transactions and of the views taken of them.  An      *)
(* operation is known by its call and its return; a view is judged by what was          *)
(* certain and what was possible while it was taken.                                     *)
EXTENDS TraceLib, Active
VARIABLES tr, l, ph,       \* "none", "born" (being started), "live", "maybe" (may have been ended as stuck), "asked" (being ended), "gone"
          bl, bh,          \* when it was born, at the earliest and at the latest (-1: not yet known)
          nm, ip,          \* the names and addresses it may have
          now, nlo, cf, qs, \* the time at most and at least (it moves during a call); qs: id -> view under way, or scan since the last quiet
          need, got, xl, asked, due
vars == <<tr, l, ph, bl, bh, nm, ip, now, nlo, cf, qs, need, got, xl, asked, due>>
T == Traces[tr]
E == T.ev
e == E[l]
Progress == ProgressOf(tr, l)
Done == Report
ASSUME InitProgress
Limit == 2000
TXS == SetOf(T.txs)
Init == /\ tr \in 1..NTraces /\ l = 1
        /\ ph = [x \in TXS |-> "none"] /\ bl = [x \in TXS |-> 0] /\ bh = [x \in TXS |-> -1]
        /\ nm = [x \in TXS |-> {}] /\ ip = [x \in TXS |-> {}] /\ now = 0 /\ nlo = 0
        /\ cf = T.conf /\ qs = << >>
        /\ need = << >> /\ got = << >> /\ xl = [x \in TXS |-> 0] /\ asked = {} /\ due = {}
Is(k) == l <= Len(E) /\ e.k = k /\ l' = l + 1 /\ UNCHANGED tr
Lo(x, t) == IF bh[x] < 0 THEN 0 ELSE Max(0, t - bh[x])
Hi(x, t) == t - bl[x]
Name(x, q) == nm[x] \cup {p[2] : p \in {r \in q.old : r[1] = x}}
Cnt(f, x) == IF x \in DOMAIN f THEN f[x] ELSE 0
Inc(f, S) == [x \in DOMAIN f \cup S |-> Cnt(f, x) + (IF x \in S THEN 1 ELSE 0)]
Open == {i \in DOMAIN qs : ~qs[i].done}
Reapers == {i \in Open : qs[i].kind = "scan" /\ cf.remove}
(* who may be ended as stuck while a scan is under way                              *)
Doom(t) == {x \in TXS : ph[x] \in {"live", "maybe"} /\ Hi(x, t) > cf.s}
(* the views under way after something changed: new: may run now; end: is being     *)
(* ended; t: the time; old: names that were given up                                 *)
Seen(new, end, t, old) ==
    [i \in DOMAIN qs |->
        LET q == qs[i]
            others == (Reapers \ {i}) # {}
        IN  IF q.done THEN [q EXCEPT !.old = @ \cup old]
            ELSE [q EXCEPT !.may = @ \cup new, !.sure = (@ \ end) \ (IF others THEN Doom(t) ELSE {}), !.alive = @ \ end, !.old = @ \cup old]]
Born == /\ Is("born") /\ ph[e.tx] = "none"
        /\ ph' = [ph EXCEPT ![e.tx] = "born"] /\ bl' = [bl EXCEPT ![e.tx] = nlo]
        /\ nm' = [nm EXCEPT ![e.tx] = {"", e.name}] /\ ip' = [ip EXCEPT ![e.tx] = {"", e.ip}]
        /\ qs' = Seen({e.tx}, {}, now, {})
        /\ UNCHANGED <<bh, now, nlo, cf, need, got, xl, asked, due>>
Started == /\ Is("started") /\ ph[e.tx] \in {"born", "asked", "gone", "maybe"}
           /\ ph' = [ph EXCEPT ![e.tx] = IF @ = "born" THEN "live" ELSE @]
           /\ bh' = [bh EXCEPT ![e.tx] = now]
           /\ nm' = [nm EXCEPT ![e.tx] = @ \ {""}] /\ ip' = [ip EXCEPT ![e.tx] = {e.ip}]
           /\ qs' = Seen({}, {}, now, {<<e.tx, "">>})
           /\ UNCHANGED <<bl, now, nlo, cf, need, got, xl, asked, due>>
Rename == /\ Is("name") /\ nm' = [nm EXCEPT ![e.tx] = @ \cup {e.name}]
          /\ UNCHANGED <<ph, bl, bh, ip, now, nlo, cf, qs, need, got, xl, asked, due>>
Renamed == /\ Is("named") /\ nm' = [nm EXCEPT ![e.tx] = IF e.alone THEN {e.name} ELSE @]
           /\ qs' = Seen({}, {}, now, IF e.alone THEN {<<e.tx, n>> : n \in nm[e.tx]} ELSE {})
           /\ UNCHANGED <<ph, bl, bh, ip, now, nlo, cf, need, got, xl, asked, due>>
Ask == /\ Is("ask") /\ ph' = [ph EXCEPT ![e.tx] = IF @ \in {"born", "live", "maybe"} THEN "asked" ELSE @]
       /\ asked' = asked \cup {e.tx} /\ qs' = Seen({}, {e.tx}, now, {})
       /\ UNCHANGED <<bl, bh, nm, ip, now, nlo, cf, need, got, xl, due>>
Gone == /\ Is("gone") /\ ph' = [ph EXCEPT ![e.tx] = IF e.alone THEN "gone" ELSE @]
        /\ UNCHANGED <<bl, bh, nm, ip, now, nlo, cf, qs, need, got, xl, asked, due>>
(* the clock is being moved, and has been                                           *)
Clock == /\ Is("clock") /\ now' = now + e.ms /\ qs' = Seen({}, {}, now + e.ms, {})
         /\ UNCHANGED <<ph, bl, bh, nm, ip, nlo, cf, need, got, xl, asked, due>>
Clocked == /\ Is("clocked") /\ nlo' = nlo + e.ms
           /\ UNCHANGED <<ph, bl, bh, nm, ip, now, cf, qs, need, got, xl, asked, due>>
Conf == /\ Is("conf") /\ Open = {} /\ cf' = e.conf
        /\ UNCHANGED <<ph, bl, bh, nm, ip, now, nlo, qs, need, got, xl, asked, due>>
(* ------------------------------------------------------------------ views        *)
View(kind) == LET live == {x \in TXS : ph[x] = "live"}
                  may == {x \in TXS : ph[x] \in {"born", "live", "maybe", "asked"}}
              IN [kind |-> kind, sure |-> IF Reapers = {} THEN live ELSE live \ Doom(now), alive |-> live, may |-> may, t0 |-> nlo, t1 |-> 0, old |-> {}, done |-> FALSE,
                  s |-> cf.s, remove |-> cf.remove, alert |-> cf.alert]
Begin == /\ l <= Len(E) /\ e.k \in {"scan", "list", "detail"} /\ l' = l + 1 /\ UNCHANGED tr
         /\ qs' = LET v == View(e.k) IN
                  (e.id :> v) @@ (IF e.k = "scan" /\ cf.remove
                                  THEN [i \in DOMAIN qs |-> IF qs[i].done THEN qs[i] ELSE [qs[i] EXCEPT !.sure = @ \ Doom(now)]]
                                  ELSE qs)
         /\ UNCHANGED <<ph, bl, bh, nm, ip, now, nlo, cf, need, got, xl, asked, due>>
Q == qs[e.id]
Without == [i \in DOMAIN qs \ {e.id} |-> qs[i]]
Scanned ==
    /\ Is("scanned")
    /\ LET lo == [x \in Q.may |-> Lo(x, Q.t0)]
           hi == [x \in Q.may |-> Hi(x, now)]
           over == Max(0, Cardinality(Q.may) - Limit)
           must == IF over > 0 THEN {} ELSE {x \in Q.sure : lo[x] > cf.s}
           could == {x \in Q.may : hi[x] > cf.s}
           alive == {x \in Q.alive : lo[x] > cf.s}
       IN /\ CountsOk(e.n, Q.sure, Q.may, lo, hi, cf.y, cf.r, Limit)
          /\ need' = Inc(need, must)
          /\ due' = due \cup {[set |-> alive, n |-> Cardinality(alive) - over, remove |-> cf.remove]}
          /\ ph' = IF cf.remove THEN [x \in TXS |-> IF x \in must /\ ph[x] \in {"live", "maybe"} THEN "gone" ELSE IF x \in could /\ ph[x] = "live" THEN "maybe" ELSE ph[x]] ELSE ph
          /\ qs' = [qs EXCEPT ![e.id].done = TRUE, ![e.id].t1 = now]
    /\ UNCHANGED <<bl, bh, nm, ip, now, nlo, cf, got, xl, asked>>
Shown(x, i) == /\ i.name \in Name(x, Q)
               /\ (i.ip \in ip[x] \/ (i.ip = "" /\ "" \in Name(x, Q)))
               /\ Lo(x, Q.t0) <= i.el /\ i.el <= Hi(x, now)
Listed == /\ Is("listed") /\ e.complete
          /\ LET items == SetOf(e.items)
                 shown == {i.tx : i \in items}
             IN /\ Cardinality(shown) = Len(e.items)
                /\ Q.sure \subseteq shown /\ shown \subseteq Q.may
                /\ e.full => \A i \in items : Shown(i.tx, i)
          /\ qs' = Without
          /\ UNCHANGED <<ph, bl, bh, nm, ip, now, nlo, cf, need, got, xl, asked, due>>
Detailed == /\ Is("detailed")
            /\ IF e.found THEN /\ e.tx \in Q.may /\ e.txt = e.tx /\ e.name \in Name(e.tx, Q)
                               /\ Lo(e.tx, Q.t0) <= e.el /\ e.el <= Hi(e.tx, now)
               ELSE e.tx \notin Q.sure
            /\ qs' = Without
            /\ UNCHANGED <<ph, bl, bh, nm, ip, now, nlo, cf, need, got, xl, asked, due>>
(* ------------------------------------------------------------------ what is sent *)
Scans == {i \in DOMAIN qs : qs[i].kind = "scan"}
EndOf(q) == IF q.done THEN q.t1 ELSE now
Alert == /\ Is("alert")
         /\ \E i \in Scans : LET q == qs[i] IN
               /\ e.tx \in q.may /\ Hi(e.tx, EndOf(q)) > q.s
               /\ e.name \in Name(e.tx, q)
               /\ (e.el >= 0 => Lo(e.tx, q.t0) <= e.el /\ e.el <= Hi(e.tx, EndOf(q)) /\ e.el > q.s)
               /\ e.level = IF q.alert THEN "error" ELSE "warn"
         /\ got' = Inc(got, {e.tx})
         /\ UNCHANGED <<ph, bl, bh, nm, ip, now, nlo, cf, qs, need, xl, asked, due>>
Xlog == /\ Is("xlog") /\ xl[e.tx] = 0 /\ xl' = [xl EXCEPT ![e.tx] = 1]
        /\ \/ e.tx \in asked
           \/ e.err /\ \E i \in Scans : qs[i].remove /\ e.tx \in qs[i].may /\ Hi(e.tx, EndOf(qs[i])) > qs[i].s
        /\ UNCHANGED <<ph, bl, bh, nm, ip, now, nlo, cf, qs, need, got, asked, due>>
(* the agent is idle: everything has come out                                       *)
Quiet == /\ Is("quiet") /\ Open = {}
         /\ \A x \in DOMAIN need : Cnt(got, x) >= need[x]
         /\ \A x \in DOMAIN got : got[x] <= Cardinality({i \in Scans : x \in qs[i].may /\ Hi(x, qs[i].t1) > qs[i].s})
         /\ \A d \in due : /\ Cardinality({x \in d.set : Cnt(got, x) > 0}) >= d.n
                           /\ d.remove => Cardinality({x \in d.set : xl[x] > 0}) >= d.n
         /\ LET new == [x \in TXS |-> CASE ph[x] = "asked" -> "gone" [] ph[x] = "maybe" -> (IF xl[x] = 1 THEN "gone" ELSE "live") [] OTHER -> ph[x]]
            IN /\ \A x \in TXS : xl[x] = IF new[x] = "gone" THEN 1 ELSE 0
               /\ ph' = new
         /\ qs' = << >> /\ need' = << >> /\ got' = << >> /\ due' = {}
         /\ UNCHANGED <<bl, bh, nm, ip, now, nlo, cf, xl, asked>>
Next == Born \/ Started \/ Rename \/ Renamed \/ Ask \/ Gone \/ Clock \/ Clocked \/ Conf \/ Begin \/ Scanned \/ Listed \/ Detailed \/ Alert \/ Xlog \/ Quiet
Spec == Init /\ [][Next]_vars
=============================================================================
