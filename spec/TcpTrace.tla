--------------------------------- MODULE TcpTrace ---------------------------------
(* What the collector did and saw on the command connections, against Tcp.        *)
(* T.hash: the object hash; T.short: the agent's patience is short: it may give a  *)
(* connection up at any time.                                                       *)
EXTENDS TraceLib, Tcp
VARIABLES tr, l, st,   \* st: none (no connection), new (not greeted yet), open
          pend,        \* requests begun and not answered
          free         \* the agent may give up this connection
vars == <<tr, l, st, pend, free>>
T == Traces[tr]
E == T.ev
e == E[l]
Init == tr \in 1..NTraces /\ l = 1 /\ st = "none" /\ pend = << >> /\ free = FALSE
Step == l <= Len(E) /\ l' = l + 1 /\ UNCHANGED tr
(* a connection is made only when there is none                                    *)
Conn == Step /\ e.k = "conn" /\ st = "none" /\ st' = "new" /\ pend' = << >> /\ free' = FALSE
Hello == Step /\ e.k = "hello" /\ st = "new" /\ e.magic = Magic /\ e.hash = T.hash /\ st' = "open" /\ UNCHANGED <<pend, free>>
(* class: good (whole and well-formed), bad (malformed), part (incomplete)          *)
Req == Step /\ e.k = "req" /\ st = "open" /\ pend' = Append(pend, e.q) /\ UNCHANGED <<st, free>>
Rest == Step /\ e.k = "rest" /\ pend # << >> /\ pend' = [pend EXCEPT ![Len(pend)].class = e.class] /\ UNCHANGED <<st, free>>
Res == /\ Step /\ e.k = "res" /\ st = "open" /\ pend # << >>
       /\ (IF pend[1].class = "good" THEN Fits(pend[1], [e.r EXCEPT !.keys = SetOf(@), !.lists = SetOf(@)]) ELSE pend[1].class = "bad") = TRUE
       /\ pend' = Tail(pend) /\ UNCHANGED <<st, free>>
(* the agent closes only what it cannot go on with                                 *)
Bad == IF pend = << >> THEN FALSE ELSE pend[1].class \in {"bad", "wrong"}
Eof == Step /\ e.k = "eof" /\ st # "none" /\ (T.short \/ free \/ Bad) = TRUE /\ st' = "none" /\ UNCHANGED <<pend, free>>
Cut == Step /\ e.k = "cut" /\ st # "none" /\ st' = "none" /\ UNCHANGED <<pend, free>>
Stall == Step /\ e.k = "stall" /\ st = "open" /\ free' = TRUE /\ UNCHANGED <<st, pend>>
(* nothing is answered that was not asked, and nothing stays unanswered            *)
End == Step /\ e.k = "end" /\ st = "open" /\ pend = << >> /\ UNCHANGED <<st, pend, free>>
Next == Conn \/ Hello \/ Req \/ Rest \/ Res \/ Eof \/ Cut \/ Stall \/ End
Spec == Init /\ [][Next]_vars
ASSUME InitProgress
Progress == ProgressOf(tr, l)
Done == Report
=============================================================================
