---------------------------------- MODULE TcpMC ----------------------------------
(* The design of the agent's end of the command channel, against a collector that *)
(* sends its requests in pieces, cuts connections, stops reading, sends requests   *)
(* that are malformed or promise more than they hold, and moves elsewhere.         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS MaxReq, MaxCut, MaxStall, MaxMove, Variant
VARIABLES pc,        \* the agent: wait, dial, hello, read, work, write
          conn,      \* the connection: none, open, cut (by the collector)
          peer,      \* the collector connected to
          mark,      \* the collector the agent thinks it is connected to
          cfg,       \* the configured collector
          rx,        \* pieces under way to the agent: <<request, piece>>
          kinds,     \* the requests of this connection
          half,      \* the last request's second piece is still to be sent
          cur,       \* the request being worked on
          resp,      \* the requests answered on this connection
          stalled,   \* the collector does not read
          reqs, cuts, stalls, moves, target
vars == <<pc, conn, peer, mark, cfg, rx, kinds, half, cur, resp, stalled, reqs, cuts, stalls, moves, target>>
net == <<conn, peer, rx, kinds, half, stalled>>
budget == <<reqs, cuts, stalls, moves>>
Kinds == {"ok", "panic", "bad", "huge"}
Init == /\ pc = "wait" /\ conn = "none" /\ peer = 0 /\ mark = 0 /\ cfg = 1 /\ rx = << >> /\ kinds = << >> /\ half = FALSE /\ cur = 0
        /\ resp = << >> /\ stalled = FALSE /\ reqs = 0 /\ cuts = 0 /\ stalls = 0 /\ moves = 0 /\ target = 0
(* ------------------------------------------------------------- the agent      *)
Wait == pc = "wait" /\ pc' = "dial" /\ target' = cfg /\ UNCHANGED <<net, mark, cfg, cur, resp, budget>>
Dial == /\ pc = "dial" /\ pc' = "hello" /\ conn' = "open" /\ peer' = target
        /\ mark' = (IF Variant = "late" THEN cfg ELSE target)
        /\ rx' = << >> /\ kinds' = << >> /\ half' = FALSE /\ stalled' = FALSE /\ resp' = << >> /\ cur' = 0
        /\ UNCHANGED <<cfg, budget, target>>
Hello == pc = "hello" /\ pc' = "read" /\ UNCHANGED <<net, mark, cfg, cur, resp, budget, target>>
Drop == /\ pc' = "wait" /\ conn' = "none" /\ rx' = << >> /\ kinds' = << >> /\ half' = FALSE /\ cur' = 0 /\ stalled' = FALSE
        /\ UNCHANGED <<peer, mark, cfg, resp, budget, target>>
Complete == IF Variant = "segment" THEN Len(rx) >= 1 ELSE Len(rx) >= 2
(* a frame is read when it is complete; what it promises beyond what comes never is *)
Read == /\ pc = "read" /\ mark = cfg /\ Complete
        /\ LET q == rx[1][1] IN
           IF Variant = "segment" /\ rx[1][2] = 2 THEN Drop
           ELSE IF kinds[q] = "huge" THEN FALSE
           ELSE IF kinds[q] = "bad" THEN Drop
           ELSE /\ cur' = q /\ pc' = "work" /\ rx' = SubSeq(rx, IF Variant = "segment" THEN 2 ELSE 3, Len(rx))
                /\ UNCHANGED <<conn, peer, mark, cfg, kinds, half, resp, stalled, budget, target>>
Moved == pc = "read" /\ mark # cfg /\ Drop
(* nothing comes for too long, or the collector is gone                          *)
Stuck == IF conn = "cut" \/ ~Complete THEN TRUE ELSE kinds[rx[1][1]] = "huge"
(* (a collector which sends its requests in time prevents the first of the two)  *)
Idle == conn = "open" /\ rx = << >>
TimeOut == pc = "read" /\ mark = cfg /\ Stuck = TRUE /\ Drop
Silence == Idle = TRUE /\ TimeOut
Fault == Idle = FALSE /\ TimeOut
Work == /\ pc = "work"
        /\ IF kinds[cur] = "panic" /\ Variant = "norecover" THEN pc' = "dead" /\ UNCHANGED <<net, mark, cfg, cur, resp, budget, target>>
           ELSE pc' = "write" /\ UNCHANGED <<net, mark, cfg, cur, resp, budget, target>>
Write == /\ pc = "write"
         /\ IF conn = "cut" THEN Drop
            ELSE IF stalled THEN Variant # "patient" /\ Drop     \* the write takes too long
            ELSE pc' = "read" /\ resp' = Append(resp, cur) /\ cur' = 0 /\ UNCHANGED <<net, mark, cfg, budget, target>>
(* ------------------------------------------------------------- the collector  *)
Up == conn = "open" /\ pc \notin {"wait", "dial", "hello"}
Req == /\ Up /\ ~half /\ reqs < MaxReq /\ reqs' = reqs + 1
       /\ \E k \in Kinds : kinds' = Append(kinds, k)
       /\ rx' = Append(rx, <<Len(kinds) + 1, 1>>) /\ half' = TRUE
       /\ UNCHANGED <<pc, conn, peer, mark, cfg, cur, resp, stalled, cuts, stalls, moves, target>>
Rest == /\ Up /\ half /\ rx' = Append(rx, <<Len(kinds), 2>>) /\ half' = FALSE
        /\ UNCHANGED <<pc, conn, peer, mark, cfg, kinds, cur, resp, stalled, budget, target>>
Cut == Up /\ cuts < MaxCut /\ cuts' = cuts + 1 /\ conn' = "cut" /\ UNCHANGED <<pc, peer, mark, cfg, rx, kinds, half, cur, resp, stalled, reqs, stalls, moves, target>>
Stall == Up /\ ~stalled /\ stalls < MaxStall /\ stalls' = stalls + 1 /\ stalled' = TRUE
         /\ UNCHANGED <<pc, conn, peer, mark, cfg, rx, kinds, half, cur, resp, reqs, cuts, moves, target>>
Move == /\ moves < MaxMove /\ moves' = moves + 1 /\ cfg' = 3 - cfg
        /\ UNCHANGED <<pc, net, mark, cur, resp, reqs, cuts, stalls, target>>
Agent == Wait \/ Dial \/ Hello \/ Read \/ Moved \/ Fault \/ Work \/ Write
Next == Agent \/ Silence \/ Req \/ Rest \/ Cut \/ Stall \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Agent) /\ WF_vars(Rest)
(* ------------------------------------------------------------- properties     *)
(* every answer is that of the next request, none is skipped or repeated; no     *)
(* request is answered before it is complete                                      *)
InOrder == resp = [i \in 1..Len(resp) |-> i]
Asked == Len(resp) <= (IF half THEN Len(kinds) - 1 ELSE Len(kinds)) \/ conn # "open"
Answerable == \A i \in DOMAIN resp : resp[i] <= Len(kinds) => kinds[resp[i]] \in {"ok", "panic"}
(* the agent always gets back to reading requests of the collector configured     *)
Returns == []<>(pc = "read" /\ conn = "open" /\ peer = cfg)
(* and a complete request is answered or its connection is given up               *)
Pending == Len(kinds) > Len(resp) /\ ~half /\ conn = "open"
Answered == Pending ~> ~Pending
=============================================================================
