---------------------------------- MODULE TcpGen ----------------------------------
(* What the collector does in behaviours of TcpMC, to be done to the real agent.   *)
EXTENDS TcpMC, Json
CONSTANT Len0
VARIABLES hist, fin
gvars == <<vars, hist, fin>>
GInit == Init /\ hist = << >> /\ fin = FALSE
Act(a) == Len(hist) < Len0 /\ hist' = Append(hist, a) /\ UNCHANGED fin
Went == hist' = hist /\ UNCHANGED fin
GReq == Req /\ Act([o |-> "req", k |-> kinds'[Len(kinds')]])
GRest == Rest /\ Act([o |-> "rest"])
GCut == Cut /\ Act([o |-> "cut"])
GStall == Stall /\ Act([o |-> "stall"])
GAgent == (Agent \/ Silence) /\ Went
(* the harness may wait for the answers due                                        *)
GSettle == /\ hist # << >> /\ pc = "read" /\ conn = "open" /\ ~half /\ hist[Len(hist)].o # "settle"
           /\ Act([o |-> "settle"]) /\ UNCHANGED vars
Finish == /\ Len(hist) = Len0 /\ ~fin /\ fin' = TRUE /\ PrintT(<<"GEN", ToJson(hist)>>) /\ UNCHANGED <<vars, hist>>
GNext == Finish \/ GReq \/ GRest \/ GCut \/ GStall \/ GAgent \/ GSettle
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
