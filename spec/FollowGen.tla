---------------------------------- MODULE FollowGen ----------------------------------
(* What happens around the agent in behaviours of FollowMC, to be done to the real one. *)
EXTENDS FollowMC, Json
CONSTANT Len0
VARIABLES hist, fin
gvars == <<vars, hist, fin>>
GInit == Init /\ (\A c \in Cols : up[c]) /\ hist = << >> /\ fin = FALSE
Put(a) == Len(hist) < Len0 /\ hist' = Append(hist, a) /\ UNCHANGED fin
GChange == \E c \in Confs : Change(c) /\ Put([o |-> "change", col |-> c.col, name |-> c.name])
GDown == \E c \in Cols : Down(c) /\ Put([o |-> "down", col |-> c, name |-> ""])
GUp == \E c \in Cols : Up(c) /\ Put([o |-> "up", col |-> c, name |-> ""])
GCut == Cut /\ Put([o |-> "cut", col |-> "", name |-> ""])
Settled == pc = "serve" /\ Same /\ Mine # {} /\ seen = conf.col
GRest == Settled /\ (hist = << >> \/ hist[Len(hist)].o # "rest") /\ Put([o |-> "rest", col |-> "", name |-> ""]) /\ UNCHANGED vars
GInner == (Reload \/ Wake \/ Dial \/ Greet \/ Leave) /\ UNCHANGED <<hist, fin>>
Finish == Len(hist) = Len0 /\ ~fin /\ fin' = TRUE /\ PrintT(<<"GEN", ToJson(hist)>>) /\ UNCHANGED <<vars, hist>>
GNext == Finish \/ GChange \/ GDown \/ GUp \/ GCut \/ GRest \/ GInner
GSpec == GInit /\ [][GNext]_gvars
=============================================================================
