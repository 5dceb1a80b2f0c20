---------------------------------- MODULE ActiveGen ----------------------------------
(* What happens around the views in behaviours of ActiveMC, to be done to the real    *)
(* agent.  A tick stands for the time that takes an age from one class to the next.   *)
EXTENDS ActiveMC, Json
CONSTANT Len0
VARIABLES hist, fin
gvars == <<vars, hist, fin>>
GInit == Init /\ hist = << >> /\ fin = FALSE
Put(a) == Len(hist) < Len0 /\ hist' = Append(hist, a) /\ UNCHANGED fin
Calm == spc = "idle" /\ lpc = "idle"
GUser == \E x \in Tx : (Start(x) /\ Put([o |-> "start", x |-> x])) \/ (End(x) /\ Put([o |-> "end", x |-> x]))
GTick == Tick /\ Calm /\ Put([o |-> "tick"])
GScan == Calm /\ Scan /\ Put([o |-> "scan"])
GList == Calm /\ List /\ Put([o |-> "list"])
GInner == ((\E x \in Tx : Visit(x) \/ Show(x)) \/ ScanEnd \/ ScanRest \/ ListEnd \/ ListRest) /\ UNCHANGED <<hist, fin>>
Finish == Len(hist) = Len0 /\ ~fin /\ fin' = TRUE /\ PrintT(<<"GEN", ToJson(hist)>>) /\ UNCHANGED <<vars, hist>>
GNext == Finish \/ GUser \/ GTick \/ GScan \/ GList \/ GInner
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
