---------------------------------- MODULE DumpGen ----------------------------------
(* What the collector and the program do in behaviours of DumpMC, to be done to    *)
(* the real agent; what the program does while a request is worked on comes with   *)
(* how far the agent had got.                                                        *)
EXTENDS DumpMC, Json
CONSTANT Len0
VARIABLES hist, fin
gvars == <<vars, hist, fin>>
GInit == Init /\ hist = << >> /\ fin = FALSE
Put(a) == Len(hist) < Len0 /\ hist' = Append(hist, a) /\ UNCHANGED fin
When == [busy |-> pc # "idle", pos |-> pos]
GAsk == Read /\ Put([o |-> "ask", c |-> cmd', name |-> name'])
GEnv == \E p \in Mine \ {<<"home", "dump", "new">>} :
            \/ Grow(p) /\ Put([o |-> "grow", p |-> p[3], at |-> When])
            \/ Unlink(p) /\ Put([o |-> "unlink", p |-> p[3], at |-> When])
            \/ Replace(p) /\ Put([o |-> "replace", p |-> p[3], at |-> When])
GAgent == (ListNames \/ Stat \/ Listed \/ Open \/ Chunk \/ Delete \/ Create \/ Write \/ Flush \/ Rest) /\ hist' = hist /\ UNCHANGED fin
Finish == Len(hist) = Len0 /\ ~fin /\ fin' = TRUE /\ PrintT(<<"GEN", ToJson(hist)>>) /\ UNCHANGED <<vars, hist>>
GNext == Finish \/ GAsk \/ GEnv \/ GAgent
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
