-------------------------------- MODULE RecTrace --------------------------------
(* Recorded programs and the records the agent sent for them, against Record.  *)
(* Calls made at the same time on one transaction form a "conc" event: any     *)
(* order that respects each thread's own is allowed.  The end of a chained     *)
(* goroutine happens at some time after its function returned, beside whatever *)
(* the program does then: each value of its record is one the transaction had  *)
(* since.                                                                       *)
EXTENDS Record, TraceLib
VARIABLES tr, l, tx, rec, late, open, wild, clock, pos
vars == <<tr, l, tx, rec, late, open, wild, clock, pos>>
T == Traces[tr]
E == T.ev
e == E[l]
None == [none |-> TRUE]

(* tx: the open transactions; rec: the records of those ended, to be sent;     *)
(* wild: transactions derived from one that had already ended (unspecified);   *)
(* late: the goroutines whose function returned, with the records they may have *)
Init == /\ tr \in 1..NTraces /\ l = 1 /\ tx = << >> /\ rec = << >> /\ late = << >> /\ open = << >> /\ wild = {} /\ clock = 0 /\ pos = << >>
Step == l' = l + 1 /\ UNCHANGED tr
Put(x, r) == (x :> r) @@ tx
Drop(f, S) == [x \in DOMAIN f \ S |-> f[x]]

(* the effect of call c on the state (tx, rec, late, open), as a record        *)
Live(s, x) == x \in DOMAIN s.tx
Upd(s, x, r) == [s EXCEPT !.tx = (x :> r) @@ @]
Seen(s, now) == [s EXCEPT !.late = [x \in DOMAIN @ |-> IF x \in DOMAIN s.tx THEN @[x] \cup {RecordOf(s.tx[x], now)} ELSE @[x]]]
Late(s, x) == x \in DOMAIN s.late
EndOf(s, x) == IF ~Live(s, x) THEN s
               ELSE LET r == RecordOf(s.tx[x], clock) IN
                    \* (its own end may be under way: what follows may still count)
                    IF Late(s, x) THEN [s EXCEPT !.late[x] = @ \cup {r}]
                    ELSE [s EXCEPT !.rec = (x :> r) @@ @, !.tx = Drop(@, {x})]
ReapOf(s) == LET S == {x \in DOMAIN s.tx : clock - s.tx[x].begin > T.limit}
                 r(x) == RecordOf(FirstError(s.tx[x], StuckError), clock) IN
             IF ~T.removes THEN s ELSE
             [s EXCEPT !.rec = [x \in {x \in S : ~Late(s, x)} |-> r(x)] @@ @, !.tx = Drop(@, {x \in S : ~Late(s, x)}),
                       !.late = [x \in DOMAIN @ |-> IF x \in S THEN @[x] \cup {r(x)} ELSE @[x]]]
From(s, x) == Live(s, x) /\ ~Late(s, x)
Eff(s, c) ==
    CASE c.k = "start" -> Upd(s, c.tx, New(c.xtype, c.name, ClientOf(c.ip, c.hdr), c.ua, c.ref, clock))
      [] c.k = "go" -> IF From(s, c.from) THEN Upd(s, c.tx, Chained(s.tx[c.from], c.name, clock)) ELSE [s EXCEPT !.wild = @ \cup {c.tx}]
      [] c.k = "inherit" -> IF From(s, c.from) THEN Upd(s, c.tx, Inherited(s.tx[c.from], clock)) ELSE [s EXCEPT !.wild = @ \cup {c.tx}]
      [] c.k = "goend" -> IF Live(s, c.tx) THEN [s EXCEPT !.late = (c.tx :> {RecordOf(s.tx[c.tx], clock)}) @@ @] ELSE s
      [] c.k = "end" -> EndOf(s, c.tx)
      [] c.k = "endhttp" -> IF Live(s, c.tx) THEN EndOf(Upd(s, c.tx, SetStatus(s.tx[c.tx], c.status)), c.tx) ELSE s
      [] c.k = "reap" -> ReapOf(s)
      [] c.k = "api" -> [s EXCEPT !.open = (c.s :> clock) @@ @]
      [] c.k = "endapi" -> IF ~Live(s, c.tx) THEN s ELSE IF c.s \in DOMAIN s.open THEN Upd(s, c.tx, CallDone(s.tx[c.tx], clock - s.open[c.s], c.m)) ELSE s
      [] c.k = "name" -> IF Live(s, c.tx) THEN Upd(s, c.tx, Rename(s.tx[c.tx], c.m)) ELSE s
      [] c.k = "err" -> IF Live(s, c.tx) THEN Upd(s, c.tx, FirstError(s.tx[c.tx], c.m)) ELSE s
      [] c.k = "errf" -> IF Live(s, c.tx) THEN Upd(s, c.tx, ForceError(s.tx[c.tx], c.m)) ELSE s
      [] c.k = "set" -> IF ~Live(s, c.tx) THEN s
                        ELSE IF c.f \in Extra THEN Upd(s, c.tx, SetText(s.tx[c.tx], c.f, c.v)) ELSE Upd(s, c.tx, SetNum(s.tx[c.tx], c.f, c.n))
      [] OTHER -> s
Cur == [tx |-> tx, rec |-> rec, late |-> late, open |-> open, wild |-> wild]
(* quantified, not defined: so that each is computed once *)
Become(u, now) == \E t \in {u} : \E s \in {Seen(t, now)} : tx' = s.tx /\ rec' = s.rec /\ late' = s.late /\ open' = s.open /\ wild' = s.wild
Special == {"xlog", "clock", "conc", "quiet"}

Call == /\ l <= Len(E) /\ e.k \notin Special /\ Become(Eff(Cur, e), clock) /\ UNCHANGED <<clock, pos>> /\ Step
Clock == /\ l <= Len(E) /\ e.k = "clock" /\ clock' = clock + e.ms /\ Become(Cur, clock + e.ms) /\ Step /\ UNCHANGED pos
(* one of the threads of a concurrent group takes its next call               *)
Conc == /\ l <= Len(E) /\ e.k = "conc"
        /\ LET P == IF pos = << >> THEN [i \in DOMAIN e.th |-> 0] ELSE pos IN
             \/ \E i \in DOMAIN e.th : /\ P[i] < Len(e.th[i])
                                       /\ Become(Eff(Cur, e.th[i][P[i] + 1]), clock) /\ pos' = [P EXCEPT ![i] = @ + 1]
                                       /\ UNCHANGED <<tr, l, clock>>
             \/ /\ \A i \in DOMAIN e.th : P[i] = Len(e.th[i])
                /\ pos' = << >> /\ Step /\ UNCHANGED <<tx, rec, late, open, wild, clock>>
(* the agent sent a record: exactly what the transaction ended with           *)
Plain == {"name", "error", "status", "apis", "apitime", "xtype", "ip", "ua", "ref", "elapsed"}
OneOf(r, S) == /\ \A f \in Plain : \E c \in S : c[f] = r[f]
               /\ \A f \in Extra : \E c \in S : c.text[f] = r.text[f]
               /\ \A f \in Nums : \E c \in S : c.num[f] = r.num[f]
Xlog == /\ l <= Len(E) /\ e.k = "xlog" /\ e.tx \in DOMAIN rec \cup wild \cup DOMAIN late
        /\ IF e.tx \in DOMAIN rec THEN rec[e.tx] = e.r ELSE TRUE
        /\ IF e.tx \in DOMAIN late THEN OneOf(e.r, late[e.tx]) = TRUE ELSE TRUE
        /\ rec' = Drop(rec, {e.tx}) /\ late' = Drop(late, {e.tx})
        /\ tx' = IF e.tx \in DOMAIN late THEN Drop(tx, {e.tx}) ELSE tx
        /\ Step /\ UNCHANGED <<open, wild, clock, pos>>
Quiet == /\ l <= Len(E) /\ e.k = "quiet" /\ (T.all => rec = << >> /\ late = << >>) /\ Step /\ UNCHANGED <<tx, rec, late, open, wild, clock, pos>>
Next == Call \/ Clock \/ Conc \/ Xlog \/ Quiet
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
